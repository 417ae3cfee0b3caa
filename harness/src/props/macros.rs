//! Custom commands: substitution, definitions and their scope, expansion limit.

use super::*;
use crate::cfg::Cfg;
use crate::engine::{Rec, Src};
use crate::xml::Node;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "A case is a set of 1-6 custom commands (0-9 parameters, bodies using earlier commands and parameters, defined by configuration, \\newcommand or \\def) and a formula using them; it is compared with the formula in which every use is replaced by the substituted body. Non-trivial: at least 3 expansions, at least one with a parameter.",
            quick: 200_000,
            thorough: 10_000_000,
            enumerate: 0,
            run: c11,
            assumptions: &[
                "Bodies and arguments do not begin with a script, prime or \\limits (the base in front of a use is not looked at; recorded in DESIGN.md).",
                "Custom commands are not used where the converter rejects them: lengths, delimiters, string arguments, text.",
                "Groupings without a visible effect (letters or numbers split over adjacent elements, attribute-free rows within rows) count as equal; operator spacing is not compared when a command that begins with a parameter or a configured command expands to something that does not begin with a letter or digit, because the converter does not know its class in advance.",
            ],
        },
        Prop {
            id: "C12",
            rule: "A case is a history of 1-5 formulas (shared state, local state, batch, resets; with and without the global group) of definitions at any nesting interleaved with uses; each formula is compared with the formula a reference interpreter expands it to. Non-trivial: at least 2 definitions and 2 uses.",
            quick: 150_000,
            thorough: 10_000_000,
            enumerate: 0,
            run: c12,
            assumptions: &["Definitions are not written inside arguments of custom commands (arguments are recorded before they are executed)."],
        },
        Prop {
            id: "C13",
            rule: "As C12 with \\newcommand, \\renewcommand, \\providecommand, \\def, \\gdef and \\let over names that may be free, built-in, configured or defined, whether this is allowed or not; results and kinds of errors are compared with the reference interpreter. Non-trivial: a \\let followed by a redefinition, or a rejected definition.",
            quick: 150_000,
            thorough: 10_000_000,
            enumerate: 0,
            run: c13,
            assumptions: &["Definitions are not written inside arguments of custom commands (arguments are recorded before they are executed)."],
        },
        Prop {
            id: "C14",
            rule: "A case is a program of custom commands and 1-3 formulas whose numbers of expansions N are counted by the reference interpreter; each is converted with a limit around N (same result as unlimited from N on, limit error below). Non-trivial: N >= 2 in some formula, or unbounded recursion.",
            quick: 100_000,
            thorough: 5_000_000,
            enumerate: 0,
            run: c14,
            assumptions: &["Programs do not use \\let, whose copies count as a use of their own."],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C11

#[derive(Clone, Debug)]
enum T {
    Lit(&'static str),
    Par(usize),
    /// Macro index, arguments, and for every argument whether it is written without braces.
    Call(usize, Vec<(Vec<T>, bool)>),
    /// A command with arguments; a bare argument is written without braces.
    Cmd(&'static str, Vec<(Vec<T>, bool)>),
    Script(Box<T>, Vec<(char, Vec<T>, bool)>),
    Wrap(&'static str, Vec<T>, &'static str),
    Text(&'static str, Vec<T>),
    Table(&'static str, Vec<Vec<Vec<T>>>),
}

struct M {
    name: String,
    n: usize,
    body: Vec<T>,
    /// 0 configuration, 1 \newcommand, 2 \def
    how: u8,
}

const LITS: &[&str] = &[
    "a", "b", "x", "y", "f", "R", "1", "2", "37", "+", "-", "=", "<", "*", "(", ")", ",", "!", "/", ":", "|", "\\alpha ",
    "\\Gamma ", "\\infty ", "\\leq ", "\\to ", "\\pm ", "\\cdot ", "\\sin ", "\\lim ", "\\sum ", "\\int ", "\\bigcup ",
    "\\quad ", "\\, ", "\\ldots ", "\\not= ", "\\emptyset ", "\\& ", "\\% ", "f'", "x''", "\\colon ", "\\mid ", "\\nabla ",
    "\\partial ", "\\% ", "\\mathrm d", "\\mathbb R", "\\mathcal{F}", "\\hbar ", "\\max ", "\\neq ", "ü", "≤", "α", "\\left( x\\right) ", "\\text{if }",
    "\\big( ", "\\operatorname{ab}", "\\mathbin{+}", "\\cdots ", "\\{ ", "\\} ", "\\bmod ", "\\pmod a",
];
const ARG1: &[&str] = &[
    "\\sqrt", "\\hat", "\\vec", "\\overline", "\\mathbf", "\\mathrm", "\\underbrace", "\\widehat",
    "\\boxed", "\\mathrel", "\\mathop", "\\mathord", "\\mathopen", "\\boldsymbol", "\\phantom", "\\xrightarrow", "\\bm",
    "\\sqrt[3]", "\\tilde", "\\mathstrut\\overrightarrow",
];
const ARG2: &[&str] = &["\\frac", "\\binom", "\\stackrel", "\\overset", "\\underset", "\\dfrac", "\\cfrac", "\\genfrac(]{1pt}{0}"];

struct Gen<'a> {
    s: &'a mut Src,
    macros: Vec<M>,
    /// Number of parameters of the body being generated.
    pars: usize,
    budget: i32,
}

impl Gen<'_> {
    fn seq(&mut self, depth: u32, lo: usize, hi: usize) -> Vec<T> {
        let n = self.s.long(lo, hi);
        (0..n).map(|_| self.one(depth)).collect()
    }
    fn lit(&mut self) -> T {
        T::Lit(self.s.pick(LITS))
    }
    fn single(&mut self, par: bool) -> T {
        // One token, so that it may be written without braces.
        if par && self.pars > 0 && self.s.chance(1, 3) {
            return T::Par(self.s.usize(self.pars));
        }
        T::Lit(self.s.pick(&["a", "x", "1", "2", "+", "=", "\\alpha ", "\\sum ", "\\leq ", "(", "R", "\\infty "]))
    }
    fn arg(&mut self, depth: u32) -> (Vec<T>, bool) {
        if self.s.chance(1, 4) {
            let t = self.single(false);
            return (vec![t], true);
        }
        (self.seq(depth, 0, 3), false)
    }
    fn cmdarg(&mut self, depth: u32) -> (Vec<T>, bool) {
        match self.s.below(8) {
            0 => (vec![self.single(true)], true),
            1 if !self.macros.is_empty() => (vec![self.call(depth)], true),
            _ => (self.seq(depth, 1, 3), false),
        }
    }
    fn call(&mut self, depth: u32) -> T {
        let i = self.s.usize(self.macros.len());
        let n = self.macros[i].n;
        let args = (0..n).map(|_| self.arg(depth.saturating_sub(1))).collect();
        T::Call(i, args)
    }
    fn one(&mut self, depth: u32) -> T {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 {
            return if self.pars > 0 && self.s.flip() { T::Par(self.s.usize(self.pars)) } else { self.lit() };
        }
        let have = u32::from(!self.macros.is_empty());
        let par = u32::from(self.pars > 0);
        match self.s.weighted(&[4, 4 * par, 7 * have, 2, 2, 3, 2, 1, 1]) {
            0 => self.lit(),
            1 => T::Par(self.s.usize(self.pars)),
            2 => self.call(depth),
            3 => T::Cmd(self.s.pick(ARG1), vec![self.cmdarg(depth - 1)]),
            4 => T::Cmd(self.s.pick(ARG2), vec![self.cmdarg(depth - 1), self.cmdarg(depth - 1)]),
            5 => {
                let base = match self.s.below(4) {
                    0 => T::Lit("\\sum "),
                    1 if have > 0 => self.call(depth - 1),
                    2 if par > 0 => T::Par(self.s.usize(self.pars)),
                    _ => T::Lit(self.s.pick(&["x", "a", "\\lim ", "\\int ", ")", "\\Gamma ", "\\}"])),
                };
                let mut sc = Vec::new();
                let which = self.s.below(4);
                if which != 1 {
                    let a = self.cmdarg(depth - 1);
                    sc.push(('_', a.0, a.1));
                }
                if which != 0 {
                    let a = self.cmdarg(depth - 1);
                    sc.push(('^', a.0, a.1));
                }
                if which == 3 {
                    sc.reverse();
                }
                T::Script(Box::new(base), sc)
            }
            6 => {
                let (o, c) = self.s.pick(&[
                    ("{", "}"),
                    ("\\left(", "\\right]"),
                    ("\\left.", "\\right\\}"),
                    ("{\\bf ", "}"),
                    ("{\\displaystyle ", "}"),
                    ("\\bigl[ ", "\\bigr) "),
                    ("{\\color{blue}", "}"),
                    ("\\textcolor{red}{", "}"),
                ]);
                T::Wrap(o, self.seq(depth - 1, 1, 4), c)
            }
            7 => {
                let name = self.s.pick(&["\\text", "\\textbf", "\\textrm", "\\texttt"]);
                let n = self.s.long(1, 3);
                let v = (0..n)
                    .map(|_| if self.pars > 0 && self.s.chance(1, 3) { T::Par(self.s.usize(self.pars)) } else { T::Lit(self.s.pick(&["a", " ", "bc ", " if", "1", ".", "\\&", "\\ldots ", "ü", "--", "`"])) })
                    .collect();
                T::Text(name, v)
            }
            _ => {
                let name = self.s.pick(&["matrix", "pmatrix", "cases", "aligned", "gathered", "Bmatrix"]);
                let rows = self.s.long(1, 3);
                let cols = self.s.len(1, 2);
                let cols = if name == "gathered" { 1 } else { cols };
                T::Table(
                    name,
                    (0..rows).map(|_| (0..cols).map(|_| self.seq(depth - 1, 1, 2)).collect()).collect(),
                )
            }
        }
    }
}

/// Print with uses of the commands (`sub` false) or substituted.
struct P<'a> {
    ms: &'a [M],
    sub: bool,
    out: String,
    expansions: usize,
    with_par: usize,
    in_text: bool,
    /// A parameter was used within text.
    text_par: bool,
    /// One whose argument contains commands, where the space that ends a command name matters.
    text_cmd: bool,
    /// A command was used whose class is not known to the operator in front of it.
    unknown_class: bool,
}

impl P<'_> {
    fn list(&mut self, v: &[T], args: &[String]) {
        for t in v {
            self.one(t, args);
        }
    }
    fn sub_list(&mut self, v: &[T], args: &[String]) -> String {
        let keep = std::mem::take(&mut self.out);
        self.list(v, args);
        std::mem::replace(&mut self.out, keep)
    }
    fn arg(&mut self, v: &[T], bare: bool, args: &[String]) {
        if bare {
            self.list(v, args);
        } else {
            self.out.push('{');
            self.list(v, args);
            self.out.push('}');
        }
    }
    fn one(&mut self, t: &T, args: &[String]) {
        if self.out.len() > 20_000 {
            return;
        }
        match t {
            T::Lit(l) => self.out.push_str(l),
            T::Par(i) => {
                self.text_par |= self.in_text;
                if self.sub {
                    self.text_cmd |= self.in_text && args[*i].contains('\\');
                    self.out.push_str(&args[*i]);
                } else {
                    self.out.push_str(&format!("#{}", i + 1));
                }
            }
            T::Call(i, a) => {
                let m = &self.ms[*i];
                if self.sub {
                    self.expansions += 1;
                    self.with_par += usize::from(m.n > 0);
                    let vals: Vec<String> = a
                        .iter()
                        .map(|(v, _)| {
                            let s = self.sub_list(v, args);
                            if s.is_empty() { "{}".into() } else { s }
                        })
                        .collect();
                    let from = self.out.len();
                    self.list(&m.body, &vals);
                    // The class of a command that begins with a parameter or with a configured
                    // command is not known in advance: such a command counts as ordinary.
                    let unknown = match first(&m.body) {
                        None | Some(T::Par(_)) => true,
                        Some(T::Call(..)) => m.how == 0,
                        _ => false,
                    };
                    let mut start = &self.out[from..];
                    while let Some(x) = start.strip_prefix("\\quad ").or(start.strip_prefix("\\, ")) {
                        start = x;
                    }
                    self.unknown_class |= unknown && !start.starts_with(|c: char| c.is_ascii_alphanumeric());
                } else {
                    self.out.push('\\');
                    self.out.push_str(&m.name);
                    // A control word must stay separate from a letter.
                    if m.name.chars().all(|c| c.is_ascii_alphabetic()) {
                        self.out.push(' ');
                    }
                    for (v, bare) in a {
                        self.arg(v, *bare, args);
                    }
                }
            }
            T::Cmd(c, a) => {
                self.out.push_str(c);
                if c.as_bytes()[c.len() - 1].is_ascii_alphabetic() {
                    self.out.push(' ');
                }
                for (v, bare) in a {
                    self.arg(v, *bare, args);
                }
            }
            T::Script(b, sc) => {
                self.one(b, args);
                for (c, v, bare) in sc {
                    self.out.push(*c);
                    self.arg(v, *bare, args);
                }
            }
            T::Wrap(o, v, c) => {
                self.out.push_str(o);
                self.list(v, args);
                self.out.push_str(c);
            }
            T::Text(c, v) => {
                self.out.push_str(c);
                self.out.push('{');
                self.in_text = true;
                self.list(v, args);
                self.in_text = false;
                self.out.push('}');
            }
            T::Table(n, rows) => {
                self.out.push_str(&format!("\\begin{{{n}}}"));
                for (i, r) in rows.iter().enumerate() {
                    if i > 0 {
                        self.out.push_str("\\\\ ");
                    }
                    for (j, c) in r.iter().enumerate() {
                        if j > 0 {
                            self.out.push('&');
                        }
                        self.list(c, args);
                    }
                }
                self.out.push_str(&format!("\\end{{{n}}}"));
            }
        }
    }
}


/// A form in which groupings without a visible effect are the same: rows that only group are
/// spliced into their parent, letters and numbers split over adjacent elements are joined, and
/// (on request) the spacing of operators is left out.
pub fn canonical(e: &El, spacing: bool) -> El {
    let mut kids: Vec<Node> = Vec::new();
    let row = ["math", "mrow", "mtd", "msqrt", "mstyle", "mphantom", "menclose", "mpadded"].contains(&e.name.as_str());
    for k in &e.kids {
        match k {
            Node::Text(t) => kids.push(Node::Text(t.clone())),
            Node::El(x) => {
                let mut c = canonical(x, spacing);
                // Under a font, a script is put on the last letter or on the whole of a run of
                // letters.
                if let Some(p) = split_base(&mut c) {
                    if row {
                        push_joined(&mut kids, p);
                    } else {
                        c = El { name: "mrow".into(), attrs: vec![], kids: vec![p, Node::El(c)] };
                    }
                }
                if c.name == "mspace" && c.attrs.is_empty() {
                    continue;
                }
                if c.name == "mrow" && c.attrs.is_empty() && (row || c.kids.len() == 1) {
                    for k in c.kids {
                        if row { push_joined(&mut kids, k) } else { kids.push(k) }
                    }
                } else if row {
                    push_joined(&mut kids, Node::El(c));
                } else {
                    kids.push(Node::El(c));
                }
            }
        }
    }
    let mut attrs = e.attrs.clone();
    if !spacing {
        attrs.retain(|(k, _)| k != "lspace" && k != "rspace");
    }
    let mut name = e.name.clone();
    if !spacing && name == "mpadded" && attrs.iter().all(|(k, v)| k == "style" && v.starts_with("padding-")) {
        attrs.clear();
        name = "mrow".into();
    }
    if name == "mi" {
        // Only a single letter without an attribute is italic by default.
        let t = e.text();
        let mut cs = t.chars();
        let italic = matches!((cs.next(), cs.next()), (Some(c), None) if c.is_ascii_alphabetic() || ('\u{391}'..='\u{3F5}').contains(&c));
        if attrs.iter().any(|(k, v)| k == "mathvariant" && v == "normal") {
            attrs.retain(|(k, _)| k != "mathvariant");
            name = "mi-upright".into();
        } else if !italic {
            name = "mi-upright".into();
        }
    }
    El { name, attrs, kids }
}

fn split_base(e: &mut El) -> Option<Node> {
    if !["msub", "msup", "msubsup", "munder", "mover", "munderover"].contains(&e.name.as_str()) {
        return None;
    }
    let Some(Node::El(b)) = e.kids.first_mut() else { return None };
    if b.name != "mi-upright" && b.name != "mn" {
        return None;
    }
    let t = b.text();
    let (i, _) = t.char_indices().last()?;
    if i == 0 {
        return None;
    }
    b.kids = vec![Node::Text(t[i..].to_string())];
    let mut p = b.clone();
    p.kids = vec![Node::Text(t[..i].to_string())];
    Some(Node::El(p))
}

fn push_joined(kids: &mut Vec<Node>, k: Node) {
    if let (Some(Node::El(p)), Node::El(c)) = (kids.last_mut(), &k)
        && p.name == c.name
        && p.attrs == c.attrs
        && (p.name == "mn" || p.name == "mi-upright")
        && let ([Node::Text(a)], [Node::Text(b)]) = (&mut p.kids[..], &c.kids[..])
    {
        a.push_str(b);
        return;
    }
    kids.push(k);
}

pub fn same_rendering(a: &str, b: &str, spacing: bool) -> Result<bool, Fail> {
    if a == b {
        return Ok(true);
    }
    let (a, b) = (parse(a)?, parse(b)?);
    Ok(canonical(&a, spacing).show() == canonical(&b, spacing).show())
}

/// Arguments that a body uses as they are written: lengths, names, delimiters, texts.
fn literal_arguments(s: &mut Src, r: &mut Rec) -> Res {
    const DELIMS: &[&str] = &["(", "]", ".", "\\langle", "|", "\\{", "/"];
    const LENGTHS: &[&str] = &["1pt", "0pt", " 2em", "-0.5ex ", "12 pt"];
    const STYLES: &[&str] = &["0", "1", "2", "3"];
    const WORDS: &[&str] = &["a", "A1", "eq:1", "a b", "x-y.z", "1", " k", "a*"];
    const COLORS: &[&str] = &["red", "blue", "DarkBlue", "black"];
    const SPECS: &[&str] = &["c", "lr", "|c|", "c|c", " l c"];
    const MATH: &[&str] = &["a", "x+y", "2", "\\frac12", "a_1^2", "\\alpha"];
    // (before, kind of the argument, whether it may be blank, after), with several arguments in a row.
    type Piece = (&'static str, &'static [&'static str], bool);
    const FORMS: &[(&[Piece], &str)] = &[
        (&[("\\genfrac{", DELIMS, true), ("}{", DELIMS, true), ("}{", LENGTHS, true), ("}{", STYLES, true), ("}{", MATH, true), ("}{", MATH, true)], "}"),
        (&[("\\genfrac{(}{", DELIMS, true), ("}{", LENGTHS, true), ("}{}{a}{", MATH, true)], "}"),
        (&[("\\begin{align}", MATH, false), ("\\tag{", WORDS, true)], "}\\end{align}"),
        (&[("\\begin{gather}a\\tag*{", WORDS, true)], "}\\end{gather}"),
        (&[("\\begin{gather}a\\label{", WORDS, true), ("}\\end{gather}\\eqref{", WORDS, true)], "}"),
        (&[("x\\eqref{", WORDS, true)], "}"),
        (&[("a\\hspace{", LENGTHS, false)], "}b"),
        (&[("a\\raisebox{", LENGTHS, false), ("}{", WORDS, true)], "}b"),
        (&[("\\color{", COLORS, false), ("}", MATH, false)], ""),
        (&[("\\textcolor{", COLORS, false), ("}{", MATH, true)], "}+1"),
        (&[("\\begin{array}{", SPECS, false), ("}", MATH, false), ("&b\\\\", MATH, false)], "\\end{array}"),
        (&[("\\operatorname{", WORDS, true), ("}_{", MATH, true)], "}"),
        (&[("\\text{", WORDS, true), ("}+\\textbf{", WORDS, true)], "}"),
        (&[("\\left", DELIMS, false), (" a\\middle", DELIMS, false), (" b\\right", DELIMS, false)], " c"),
        (&[("\\Bigl", DELIMS, false), (" a\\big", DELIMS, false)], " c"),
        (&[("\\sqrt[", MATH, false), ("]{", MATH, true)], "}"),
        (&[("\\xrightarrow[", MATH, false), ("]{", MATH, true)], "}b"),
        (&[("\\cfrac[l]{", MATH, true), ("}{", MATH, true)], "}"),
        (&[("\\mathchoice{", MATH, true), ("}{", MATH, true), ("}{", MATH, true), ("}{", MATH, true)], "}"),
        (&[("\\sideset{_", MATH, false), ("}{^{", MATH, true), ("}}\\sum_{", MATH, true)], "}"),
        (&[("\\prescript{", MATH, true), ("}{", MATH, true), ("}{", MATH, true)], "}"),
    ];
    let (pieces, tail) = s.pick(FORMS);
    let (mut body, mut plain, mut call, mut inner) = (String::new(), String::new(), String::new(), String::new());
    let mut blank = 0;
    for (i, (before, kind, may)) in pieces.iter().enumerate() {
        let arg = if *may && s.chance(1, 3) {
            blank += 1;
            s.pick(&["", "", " "])
        } else {
            s.pick(kind)
        };
        body.push_str(&format!("{before}#{}", i + 1));
        plain.push_str(&format!("{before}{arg}"));
        // Without braces around it, the space that ends a command name would be an argument.
        inner.push_str(&format!("{{#{}}}", i + 1));
        call.push_str(&format!("{{{arg}}}"));
    }
    body.push_str(tail);
    plain.push_str(tail);
    let n = pieces.len();
    let mut cfg = Cfg::default();
    let mut doc = String::new();
    // Sometimes the arguments come through a second command.
    let twice = s.chance(1, 3);
    let mut chain = vec![("lfa", body)];
    if twice {
        chain.push(("lfb", format!("\\lfa{inner}")));
    }
    let in_cfg = s.chance(1, 3);
    for (name, body) in &chain {
        match s.below(2) {
            _ if in_cfg => cfg.macros.push(((*name).into(), body.clone())),
            0 => doc.push_str(&format!("\\newcommand{{\\{name}}}[{n}]{{{body}}}")),
            _ => {
                let p: String = (1..=n).map(|i| format!("#{i}")).collect();
                doc.push_str(&format!("\\def\\{name}{p}{{{body}}}"));
            }
        }
    }
    doc.push_str(&format!("\\{}{call}", chain.last().unwrap().0));
    r.input = format!("{} {doc}\nplain: {plain}", cfg.show());
    let d = crate::cfg::disp(s);
    let conv = match LatexToMathML::new(cfg.raw()) {
        Ok(c) => c,
        Err(e) => return fail("rejected with custom commands only", e.0.error_message()),
    };
    let got = conv.convert_with_local_state(&doc, d);
    let want = Cfg::default().build().convert_with_local_state(&plain, d);
    r.evals += 2;
    r.label(if blank > 0 { "literal arguments, blank ones among them" } else { "literal arguments" });
    match (got, want) {
        (Ok(g), Ok(w)) => {
            r.nontrivial = true;
            if !same_rendering(&g.mathml, &w.mathml, true)? {
                return fail("not the substituted body", format!("with commands {}\nsubstituted {}", g.mathml, w.mathml));
            }
            Ok(())
        }
        (Err(e), Ok(w)) => fail("rejected with custom commands only", format!("{}\n{}", e.error_message(), w.mathml)),
        (Ok(g), Err(e)) => fail("accepted with custom commands only", format!("{}\n{}", g.mathml, e.error_message())),
        (Err(_), Err(_)) => {
            r.label("both rejected");
            Ok(())
        }
    }
}

fn c11(s: &mut Src, r: &mut Rec) -> Res {
    if s.chance(1, 8) {
        return literal_arguments(s, r);
    }
    let names = if s.chance(1, 4) {
        ["fjustaverylongnameforacommandmmmm", "fjustaverylongnameforacommandmmmmn", "fjustaverylongnameforacommandmmm", "kk", "Mac", "1", "FJUSTAVERYLONGNAME"]
    } else {
        ["f", "g", "hh", "kk", "Mac", "0", "zz"]
    };
    let count = s.len(1, 6);
    let fill = if s.chance(1, 12) { fillers(s) } else { vec![] };
    let fill_cfg = s.flip();
    let mut g = Gen { s, macros: vec![], pars: 0, budget: 0 };
    for i in 0..count {
        g.pars = match g.s.below(6) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 => 2,
            _ => g.s.range(3, 9) as usize,
        };
        g.budget = 12;
        let body = g.seq(2, 1, 4);
        // All parameters up to the highest one are declared by the configuration syntax, so a
        // configured command gets exactly as many as it mentions.
        let how = g.s.below(3) as u8;
        let n = if how == 0 { highest(&body) } else { g.pars };
        let name = names[i].to_string();
        g.macros.push(M { name, n, body, how });
    }
    // Configured commands come before the others, so they may only use configured ones: turn
    // every command that is used by or uses the wrong kind into a document command.
    for i in 0..count {
        if g.macros[i].how == 0 && uses_doc(&g.macros[i].body, &g.macros) {
            g.macros[i].how = 1;
        }
    }
    g.pars = 0;
    g.budget = 30;
    let body = g.seq(3, 1, 5);
    let ms = g.macros;
    let mut a = P { ms: &ms, sub: false, out: String::new(), expansions: 0, with_par: 0, in_text: false, text_par: false, text_cmd: false, unknown_class: false };
    let mut cfg = Cfg { max_expansions: 100_000, ..Cfg::default() };
    let mut defs = String::new();
    for f in &fill {
        if fill_cfg {
            cfg.macros.push((f.clone(), "#1k".to_string()));
        } else {
            defs.push_str(&format!("\\newcommand\\{f}[1]{{#1k}}"));
        }
    }
    for m in &ms {
        a.out.clear();
        a.list(&m.body, &[]);
        match m.how {
            0 => cfg.macros.push((m.name.clone(), a.out.clone())),
            1 if m.n == 0 => defs.push_str(&format!("\\newcommand\\{}{{{}}}", m.name, a.out)),
            1 => defs.push_str(&format!("\\newcommand{{\\{}}}[{}]{{{}}}", m.name, m.n, a.out)),
            _ => {
                let p: String = (1..=m.n).map(|i| format!("#{i}")).collect();
                defs.push_str(&format!("\\def\\{}{p}{{{}}}", m.name, a.out));
            }
        }
    }
    a.out.clear();
    a.list(&body, &[]);
    let used = format!("{defs}{}", a.out);
    let mut b = P { ms: &ms, sub: true, out: String::new(), expansions: 0, with_par: 0, in_text: false, text_par: false, text_cmd: false, unknown_class: false };
    b.list(&body, &[]);
    let plain = b.out;
    if s.flip() && cfg.macros.len() > 1 {
        // "A macro may use another macro of this list, no matter which of the two comes first."
        // The class of a body that begins with a command defined later is not known, so this is
        // only done where it makes no difference.
        let ok = ms.iter().filter(|m| m.how == 0).all(|m| !matches!(m.body[0], T::Call(..)));
        if ok {
            cfg.macros.reverse();
        }
    }
    let (exp, par, text_par, unknown_class) = (b.expansions, b.with_par, b.text_par, b.unknown_class);
    r.input = format!("{} {used}\nplain: {plain}", cfg.show());
    if plain.len() > 20_000 {
        r.label("skipped: too long");
        return Ok(());
    }
    if b.text_cmd {
        r.label("skipped: command in a text argument");
        return Ok(());
    }
    r.nontrivial = exp >= 3 && par >= 1;
    let d = crate::cfg::disp(s);
    let got = match LatexToMathML::new(cfg.raw()) {
        Ok(c) => c.convert_with_local_state(&used, d),
        Err(e) => Err(e.0),
    };
    let want = Cfg { max_expansions: 100_000, ..Cfg::default() }.build().convert_with_local_state(&plain, d);
    r.evals += 2;
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            r.label("converted");
            let spacing = !unknown_class;
            r.label(if spacing { "with spacing" } else { "without spacing" });
            if !same_rendering(&g.mathml, &w.mathml, spacing)? {
                return fail("not the substituted body", format!("with commands {}\nsubstituted {}", g.mathml, w.mathml));
            }
            Ok(())
        }
        (Err(_), Err(_)) => {
            r.label("both rejected");
            r.nontrivial = false;
            Ok(())
        }
        (Ok(g), Err(e)) => fail("accepted with custom commands only", format!("{}\n{}", g.mathml, e.error_message())),
        // A custom command in an argument that ends up in text.
        (Err(e), Ok(_)) if text_par && e.error_message().contains("in text mode") => {
            r.label("command in text");
            Ok(())
        }
        (Err(e), Ok(w)) => fail("rejected with custom commands only", format!("{}\n{}", e.error_message(), w.mathml)),
    }
}

/// What the class of a body is taken from.
fn first(v: &[T]) -> Option<&T> {
    match v.iter().find(|t| !matches!(t, T::Lit("\\quad " | "\\, ")))? {
        T::Script(b, _) => first(std::slice::from_ref(b)),
        t => Some(t),
    }
}

fn highest(v: &[T]) -> usize {
    v.iter()
        .map(|t| match t {
            T::Lit(_) => 0,
            T::Par(i) => i + 1,
            T::Call(_, a) | T::Cmd(_, a) => a.iter().map(|a| highest(&a.0)).max().unwrap_or(0),
            T::Script(b, sc) => highest(std::slice::from_ref(b)).max(sc.iter().map(|x| highest(&x.1)).max().unwrap_or(0)),
            T::Wrap(_, v, _) | T::Text(_, v) => highest(v),
            T::Table(_, rows) => rows.iter().flatten().map(|c| highest(c)).max().unwrap_or(0),
        })
        .max()
        .unwrap_or(0)
}

fn uses_doc(v: &[T], ms: &[M]) -> bool {
    v.iter().any(|t| match t {
        T::Lit(_) | T::Par(_) => false,
        T::Call(i, a) => ms[*i].how != 0 || a.iter().any(|a| uses_doc(&a.0, ms)),
        T::Cmd(_, a) => a.iter().any(|a| uses_doc(&a.0, ms)),
        T::Script(b, sc) => uses_doc(std::slice::from_ref(b), ms) || sc.iter().any(|x| uses_doc(&x.1, ms)),
        T::Wrap(_, v, _) | T::Text(_, v) => uses_doc(v, ms),
        T::Table(_, rows) => rows.iter().flatten().any(|c| uses_doc(c, ms)),
    })
}

// ---------------------------------------------------------------------------------------------
// The reference interpreter of definitions

/// Names and their numbers of arguments; a name has the same number whatever its definition.
const NAMES: &[(&str, usize)] = &[
    ("fa", 0),
    ("thisisacommandwithalongnameb", 0),
    ("thisisacommandwithalongnamec", 0),
    ("0", 0),
    ("ga", 1),
    ("thisisacommandwithalongname", 1),
    ("ha", 2),
    ("alpha", 0),
    ("beta", 0),
    ("pi", 0),
    ("infty", 0),
];

fn builtin(i: usize) -> bool {
    i >= 7
}

#[derive(Clone, Debug, PartialEq)]
enum I {
    Ch(char),
    Use(usize, Vec<Vec<I>>),
    Par(usize),
}

#[derive(Clone, Debug)]
enum Meaning {
    Body(Vec<I>),
    /// What \let of a built-in command or a character copies.
    Fixed(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Why {
    Unknown,
    Taken,
    Free,
    TooMany,
}

#[derive(Default, Clone)]
struct World {
    config: BTreeMap<usize, Meaning>,
    document: BTreeMap<usize, Meaning>,
    local: BTreeMap<usize, Meaning>,
    global_group: bool,
    ignore_unknown: bool,
    /// Expansions in the current formula, and their limit.
    n: u64,
    limit: u64,
}

impl World {
    fn get(&self, i: usize) -> Option<Meaning> {
        self.local
            .get(&i)
            .or_else(|| self.document.get(&i))
            .or_else(|| self.config.get(&i))
            .cloned()
            .or_else(|| builtin(i).then(|| Meaning::Fixed(format!("\\{} ", NAMES[i].0))))
    }
    fn set(&mut self, i: usize, m: Meaning, global: bool) {
        if global || self.global_group {
            self.local.remove(&i);
            self.document.insert(i, m);
        } else {
            self.local.insert(i, m);
        }
    }
    /// Unknown names in an argument are rejected when it is read.
    fn known(&self, v: &[I]) -> bool {
        self.ignore_unknown
            || v.iter().all(|x| match x {
                I::Use(i, a) => self.get(*i).is_some() && a.iter().all(|a| self.known(a)),
                _ => true,
            })
    }
    fn run(&mut self, v: &[I], out: &mut String) -> Result<(), Why> {
        for x in v {
            match x {
                I::Ch(c) => out.push(*c),
                I::Par(_) => unreachable!("parameters are substituted first"),
                I::Use(i, args) => match self.get(*i) {
                    None => {
                        if !self.ignore_unknown {
                            return Err(Why::Unknown);
                        }
                        out.push_str(&format!("\\{} ", NAMES[*i].0));
                        // What would be arguments are ordinary groups.
                        for a in args {
                            out.push('{');
                            self.run(a, out)?;
                            out.push('}');
                        }
                    }
                    Some(Meaning::Fixed(t)) => out.push_str(&t),
                    Some(Meaning::Body(b)) => {
                        self.n += 1;
                        if self.n > self.limit {
                            return Err(Why::TooMany);
                        }
                        if !args.iter().all(|a| self.known(a)) {
                            return Err(Why::Unknown);
                        }
                        if b.is_empty() {
                            out.push_str("{}");
                        }
                        let b = subst(&b, args);
                        if out.len() > 30_000 || size(&b) > 3_000 {
                            return Err(Why::TooMany);
                        }
                        self.run(&b, out)?;
                    }
                },
            }
        }
        Ok(())
    }
}

fn subst(b: &[I], args: &[Vec<I>]) -> Vec<I> {
    let mut out = Vec::new();
    for x in b {
        match x {
            I::Ch(c) => out.push(I::Ch(*c)),
            I::Par(i) => out.extend(args[*i].iter().cloned()),
            I::Use(n, a) => out.push(I::Use(*n, a.iter().map(|a| subst(a, args)).collect())),
        }
    }
    out
}

fn size(v: &[I]) -> usize {
    v.iter()
        .map(|x| match x {
            I::Use(_, a) => 1 + a.iter().map(|a| size(a)).sum::<usize>(),
            _ => 1,
        })
        .sum()
}

fn print(v: &[I]) -> String {
    let mut out = String::new();
    for x in v {
        match x {
            I::Ch(c) => out.push(*c),
            I::Par(i) => out.push_str(&format!("#{}", i + 1)),
            I::Use(i, a) => {
                out.push_str(&format!("\\{} ", NAMES[*i].0));
                for a in a {
                    out.push('{');
                    out.push_str(&print(a));
                    out.push('}');
                }
            }
        }
    }
    out
}

#[derive(Clone, Copy)]
struct Mode {
    /// Definitions that are not allowed, and unknown names.
    invalid: bool,
    lets: bool,
    globals: bool,
    /// Names in bodies may only be of commands earlier in the list (no recursion).
    ordered: bool,
}

struct Prog<'a> {
    s: &'a mut Src,
    w: World,
    mode: Mode,
    src: String,
    exp: String,
    err: Option<Why>,
    defs: usize,
    uses: usize,
    /// Names that were the source or target of a \let, to see them redefined.
    lets: Vec<usize>,
    interesting: bool,
}

impl Prog<'_> {
    fn items(&mut self, lo: usize, hi: usize, pars: usize, below: usize, depth: u32) -> Vec<I> {
        let n = self.s.len(lo, hi);
        (0..n)
            .map(|_| match self.s.weighted(&[3, if pars > 0 { 3 } else { 0 }, 3]) {
                0 => I::Ch(self.s.pick(&['a', 'b', 'x', 'y', 'z', 'Q'])),
                1 => I::Par(self.s.usize(pars)),
                _ => self.a_use(pars, below, depth),
            })
            .collect()
    }
    fn name(&mut self, below: usize) -> Option<usize> {
        // Only known names, unless unknown ones are wanted.
        let v: Vec<usize> = (0..NAMES.len())
            .filter(|i| *i < below || builtin(*i))
            .filter(|i| self.w.get(*i).is_some())
            .collect();
        if self.mode.invalid && below > 0 && self.s.chance(1, 8) {
            return Some(self.s.usize(NAMES.len().min(below)));
        }
        if v.is_empty() { None } else { Some(self.s.pick(&v)) }
    }
    fn a_use(&mut self, pars: usize, below: usize, depth: u32) -> I {
        let Some(i) = self.name(below) else { return I::Ch('k') };
        if depth == 0 && NAMES[i].1 > 0 {
            return I::Ch('m');
        }
        let args = (0..NAMES[i].1).map(|_| self.items(1, 2, pars, below, depth.saturating_sub(1))).collect();
        I::Use(i, args)
    }
    fn gap(&mut self) {
        if self.s.chance(1, 5) {
            let t = self.s.pick(&[" ", "\n", "%c\n", "  "]);
            self.src.push_str(t);
        }
    }
    fn define(&mut self) {
        let w = &self.w;
        let taken: Vec<bool> = (0..NAMES.len()).map(|i| w.get(i).is_some()).collect();
        if self.mode.lets && self.s.chance(1, 4) {
            return self.a_let();
        }
        let kind = self.s.weighted(&[3, 3, 2, 3, u32::from(self.mode.globals) * 2]);
        let ok: Vec<usize> = (0..NAMES.len())
            .filter(|i| match kind {
                0 => !taken[*i],
                1 => taken[*i],
                _ => true,
            })
            .collect();
        let i = if self.mode.invalid && self.s.chance(1, 6) || ok.is_empty() {
            self.s.usize(NAMES.len())
        } else {
            self.s.pick(&ok)
        };
        if !self.mode.invalid && (kind == 0 && taken[i] || kind == 1 && !taken[i]) {
            return;
        }
        let (name, n) = NAMES[i];
        let below = if self.mode.ordered && !builtin(i) {
            i
        } else if self.mode.ordered {
            0
        } else {
            NAMES.len()
        };
        let body = self.items(0, 3, n, below, 1);
        let body = if self.mode.ordered {
            body.into_iter().filter(|x| !matches!(x, I::Use(j, _) if builtin(*j) && builtin(i))).collect()
        } else {
            body
        };
        let printed = print(&body);
        let global = match kind {
            0..=2 => {
                let cmd = ["\\newcommand", "\\renewcommand", "\\providecommand"][kind];
                self.src.push_str(cmd);
                self.gap();
                if self.s.flip() {
                    self.src.push_str(&format!("{{\\{name}}}"));
                } else {
                    self.src.push_str(&format!("\\{name}"));
                }
                self.gap();
                if n > 0 {
                    self.src.push_str(&format!("[{n}]"));
                    self.gap();
                }
                if n == 0 && body.len() == 1 && matches!(body[0], I::Ch(_)) && self.s.chance(1, 3) {
                    self.src.push_str(&format!(" {printed}"));
                } else {
                    self.src.push_str(&format!("{{{printed}}}"));
                }
                false
            }
            _ => {
                let g = self.mode.globals && self.s.chance(1, 4);
                if g {
                    for _ in 0..if self.s.chance(1, 6) { 3 } else { 1 } {
                        self.src.push_str("\\global");
                        self.gap();
                    }
                }
                self.src.push_str(if kind == 4 { "\\gdef" } else { "\\def" });
                self.gap();
                self.src.push_str(&format!("\\{name}"));
                let p: String = (1..=n).map(|i| format!("#{i}")).collect();
                self.src.push_str(&format!("{p}{{{printed}}}"));
                g || kind == 4
            }
        };
        if self.err.is_some() {
            return;
        }
        self.defs += 1;
        if self.lets.contains(&i) {
            self.interesting = true;
        }
        match kind {
            0 if taken[i] => self.err = Some(Why::Taken),
            1 if !taken[i] => self.err = Some(Why::Free),
            2 if taken[i] => {}
            _ => self.w.set(i, Meaning::Body(body), global),
        }
        if self.err.is_some() {
            self.interesting = true;
        }
    }
    fn a_let(&mut self) {
        let i = self.s.usize(NAMES.len());
        let n = NAMES[i].1;
        let srcs: Vec<usize> = (0..NAMES.len())
            .filter(|j| NAMES[*j].1 == n && (self.w.get(*j).is_some() || self.mode.invalid && !self.w.ignore_unknown))
            .collect();
        let global = self.mode.globals && self.s.chance(1, 4);
        let ch = n == 0 && self.s.chance(1, 6);
        if srcs.is_empty() && !ch {
            return;
        }
        if global {
            for _ in 0..if self.s.chance(1, 6) { 2 } else { 1 } {
                self.src.push_str("\\global");
                self.gap();
            }
        }
        self.src.push_str("\\let");
        self.gap();
        self.src.push_str(&format!("\\{}", NAMES[i].0));
        self.gap();
        let eq = self.s.flip();
        if eq {
            self.src.push('=');
            self.gap();
        }
        let m = if ch {
            let c = if eq && self.s.chance(1, 4) { '=' } else { self.s.pick(&['a', 'q', 'Z', '(', '!']) };
            self.src.push_str(&format!(" {c}"));
            Some(Meaning::Fixed(c.to_string()))
        } else {
            let j = self.s.pick(&srcs);
            self.src.push_str(&format!("\\{} ", NAMES[j].0));
            self.lets.push(j);
            self.lets.push(i);
            self.w.get(j)
        };
        if self.err.is_some() {
            return;
        }
        self.defs += 1;
        match m {
            None => {
                self.err = Some(Why::Unknown);
                self.interesting = true;
            }
            Some(m) => self.w.set(i, m, global),
        }
    }
    fn use_it(&mut self) {
        let u = self.a_use(0, NAMES.len(), 2);
        self.src.push_str(&print(std::slice::from_ref(&u)));
        let mut tail = "";
        if matches!(&u, I::Use(_, a) if a.is_empty()) && self.s.chance(1, 3) {
            // A control word ends in other ways than by a space.
            self.src.pop();
            match self.s.below(4) {
                0 => self.src.push('\n'),
                1 => self.src.push_str("%\n"),
                2 => tail = "{}",
                _ => tail = ",",
            }
            self.src.push_str(tail);
        }
        if self.err.is_some() {
            return;
        }
        self.uses += 1;
        let mut out = String::new();
        if let Err(e) = self.w.run(&[u], &mut out) {
            self.err = Some(e);
        }
        self.exp.push_str(&out);
        self.exp.push_str(tail);
    }
    /// Definitions and uses in the argument of a macro, which is read as a whole before any of them is carried out.
    fn in_argument(&mut self) {
        if self.err.is_some() {
            return;
        }
        let mut src = "\\def\\qid#1{#1}\\qid{".to_string();
        let known: Vec<usize> = (0..NAMES.len()).filter(|i| self.w.ignore_unknown || self.w.get(*i).is_some()).collect();
        self.w.n += 1;
        for _ in 0..self.s.range(1, 2) {
            if known.is_empty() {
                break;
            }
            let i = self.s.pick(&known);
            let (name, n) = NAMES[i];
            let mut body = vec![I::Ch(self.s.pick(&['k', 'l']))];
            body.extend((0..n).map(I::Par));
            let printed = print(&body);
            let taken = self.w.get(i).is_some();
            src += &match self.s.below(3) {
                0 => {
                    let p: String = (1..=n).map(|i| format!("#{i}")).collect();
                    format!("\\def\\{name}{p}{{{printed}}}")
                }
                _ => {
                    let a = if n > 0 { format!("[{n}]") } else { String::new() };
                    format!("\\{}{{\\{name}}}{a}{{{printed}}}", if taken { "renewcommand" } else { "newcommand" })
                }
            };
            if self.err.is_none() {
                self.w.set(i, Meaning::Body(body), false);
            }
            self.defs += 1;
            self.interesting = true;
            for _ in 0..self.s.usize(4) {
                let j = if self.s.flip() { i } else { self.s.pick(&known) };
                let u = [I::Use(j, (0..NAMES[j].1).map(|_| vec![I::Ch('p')]).collect())];
                src += &print(&u);
                if self.err.is_some() {
                    continue;
                }
                self.uses += 1;
                let mut out = String::new();
                if let Err(e) = self.w.run(&u, &mut out) {
                    self.err = Some(e);
                }
                self.exp.push_str(&out);
            }
        }
        self.src.push_str(&src);
        self.src.push_str("w}");
        self.exp.push('w');
    }
    fn both(&mut self, t: &str) {
        self.src.push_str(t);
        if self.err.is_none() {
            self.exp.push_str(t);
        }
    }
    fn stmts(&mut self, depth: u32, lo: usize, hi: usize) {
        let n = self.s.long(lo, hi);
        for _ in 0..n {
            match self.s.weighted(&[8, 8, if depth > 0 { 6 } else { 0 }, 1]) {
                0 => self.define(),
                1 => self.use_it(),
                3 => self.in_argument(),
                _ => {
                    let shape = self.s.pick(&[
                        ["{", "}", ""],
                        ["\\frac{", "}{", "}"],
                        ["\\left(", "\\right)", ""],
                        ["\\begin{matrix}", "&", "\\end{matrix}"],
                        ["\\begin{cases}", "\\\\ ", "\\end{cases}"],
                        ["\\sqrt{", "}", ""],
                        ["\\widehat{", "}", ""],
                        ["x_{", "}^{", "}"],
                        ["\\begin{align*}", "\\\\ ", "\\end{align*}"],
                        ["\\underset{", "}{", "}"],
                        ["{", "\\over ", "}"],
                        ["\\left[", "\\middle|", "\\right]"],
                        ["\\begin{array}{c|c}", "&", "\\end{array}"],
                        ["\\hat{", "}", ""],
                        ["\\phantom{", "}", ""],
                        ["\\stackrel{", "}{", "}"],
                        ["\\boxed{", "}", ""],
                        ["\\overline{", "}", ""],
                    ]);
                    if shape[0].contains("align") && depth < 3 {
                        self.both("v");
                        continue;
                    }
                    let segs = if shape[2].is_empty() { 1 } else { 2 };
                    for k in 0..segs {
                        self.both(shape[k]);
                        self.stmts(depth - 1, 0, 4);
                        self.both("w");
                    }
                    self.both(shape[segs]);
                }
            }
            self.gap();
        }
        self.both("u");
    }
}

fn category(e: &LatexError) -> Option<Why> {
    let m = e.error_message();
    Some(if m.starts_with("Unknown command") {
        Why::Unknown
    } else if m.contains("already defined") {
        Why::Taken
    } else if m.contains("not defined") || m.contains("isn't defined") || m.contains("not been defined") {
        Why::Free
    } else if m.starts_with("Too many expansions") {
        Why::TooMany
    } else {
        return None;
    })
}

fn configured(s: &mut Src, w: &mut World) -> Vec<(String, String)> {
    let mut out = Vec::new();
    let mut idx: Vec<usize> = Vec::new();
    for i in 0..NAMES.len() {
        if s.chance(1, 6) {
            idx.push(i);
        }
    }
    for i in idx {
        let n = NAMES[i].1;
        let mut body = vec![I::Ch(s.pick(&['c', 'd']))];
        body.extend((0..n).map(I::Par));
        if s.flip() {
            let j = s.range(7, 10) as usize;
            if i != j && !builtin(i) {
                body.push(I::Use(j, vec![]));
            }
        }
        out.push((NAMES[i].0.to_string(), print(&body)));
        w.config.insert(i, Meaning::Body(body));
    }
    out
}

fn no_spacing(m: &str) -> String {
    m.replace(" lspace=\"0\"", "").replace(" rspace=\"0\"", "")
}

/// Names of commands that only take room.
fn fillers(s: &mut Src) -> Vec<String> {
    let n = s.pick(&[8, 12, 20, 40, 100, 300]);
    (0..n).map(|i| format!("qq{}{}", (b'a' + (i / 26) as u8) as char, (b'A' + (i % 26) as u8) as char)).collect()
}

/// Run a history and compare it with the interpreter.
fn history(s: &mut Src, r: &mut Rec, mode: Mode, limit: u32) -> Result<(usize, usize, bool), Fail> {
    let mut w = World { global_group: s.flip(), ignore_unknown: s.chance(1, 3), limit: u64::from(limit) / 15, ..World::default() };
    let w_limit = w.limit;
    let mut macros = configured(s, &mut w);
    if s.chance(1, 12) {
        let v = fillers(s).into_iter().map(|f| (format!("c{f}"), "k".to_string()));
        if s.flip() {
            macros.splice(0..0, v);
        } else {
            macros.extend(v);
        }
    }
    let cfg = Cfg {
        macros,
        global_group: w.global_group,
        ignore_unknown: w.ignore_unknown,
        max_expansions: limit,
        ..Cfg::default()
    };
    let how = s.below(4); // 0,1 shared state, 2 local, 3 batch
    let n = s.long(1, 5);
    let (mut defs, mut uses, mut interesting) = (0, 0, false);
    let mut srcs = Vec::new();
    let mut wants = Vec::new();
    let mut resets = Vec::new();
    for _ in 0..n {
        let reset = how < 2 && s.chance(1, 6);
        if reset || how == 2 {
            w.document.clear();
        }
        w.local.clear();
        w.n = 0;
        let mut p = Prog {
            s,
            w,
            mode,
            src: String::new(),
            exp: String::new(),
            err: None,
            defs: 0,
            uses: 0,
            lets: vec![],
            interesting: false,
        };
        // Many other definitions in front, and uses of some of them at the end.
        let fill = if p.s.chance(1, 12) { fillers(p.s) } else { vec![] };
        for f in &fill {
            let def = p.s.pick(&["\\def\\", "\\def\\", "\\gdef\\", "\\let\\"]);
            let def = if def.contains("gdef") && !mode.globals { "\\def\\" } else { def };
            p.src.push_str(&if def.contains("let") { format!("{def}{f}=k") } else { format!("{def}{f}{{k}}") });
        }
        p.stmts(3, 1, 5);
        if !fill.is_empty() && p.err.is_none() {
            let f = p.s.pick_ref(&fill);
            p.src.push_str(&format!("\\{f} "));
            p.exp.push('k');
        }
        defs += p.defs;
        uses += p.uses;
        interesting |= p.interesting;
        srcs.push(p.src);
        wants.push(p.err.map_or(Ok(p.exp), Err));
        resets.push(reset);
        w = p.w;
    }
    r.input = format!(
        "{} how={how} {}",
        cfg.show(),
        srcs.iter()
            .zip(&resets)
            .map(|(f, x)| format!("{}{f}", if *x { "<reset>" } else { "" }))
            .collect::<Vec<_>>()
            .join("\n  ")
    );
    let mut c = cfg.build();
    let d = MathDisplay::Block;
    let got: Vec<_> = if how == 3 {
        let v: Vec<(&str, MathDisplay)> = srcs.iter().map(|f| (f.as_str(), d)).collect();
        c.convert_all(&v)
    } else {
        srcs.iter()
            .zip(&resets)
            .map(|(f, x)| {
                if *x {
                    c.reset_global_state();
                }
                if how == 2 { c.convert_with_local_state(f, d) } else { c.convert_with_global_state(f, d) }
            })
            .collect()
    };
    r.evals += srcs.len() as u64;
    let plain = Cfg { ignore_unknown: cfg.ignore_unknown, ..Cfg::default() };
    let mut pc = plain.build();
    for (i, (g, w)) in got.iter().zip(&wants).enumerate() {
        match (g, w) {
            (Ok(g), Ok(w)) => {
                r.label("converted");
                // Numbering goes on, as it does in the history.
                let want = if how == 2 {
                    pc.convert_with_local_state(w, d)
                } else {
                    if resets[i] {
                        pc.reset_global_state();
                    }
                    pc.convert_with_global_state(w, d)
                };
                match want {
                    Ok(x) if x.mathml == g.mathml => {}
                    // An operator does not look through a definition behind it.
                    Ok(x) if w.contains('=') && no_spacing(&x.mathml) == no_spacing(&g.mathml) => {}
                    Ok(x) => return fail("meaning of a use", format!("formula {i}: {}\nexpected {} from {w}", g.mathml, x.mathml)),
                    Err(e) => return fail("reference rejected", format!("formula {i}: {w}: {}", e.error_message())),
                }
            }
            (Err(e), Err(w)) => {
                r.label("rejected as expected");
                if *w == Why::TooMany && srcs[i].len() > 1200 {
                    r.label("too many for the reference");
                    break;
                }
                if category(e) != Some(*w) {
                    return fail("kind of error", format!("formula {i}: {}, expected {w:?}", e.error_message()));
                }
            }
            // The reference gave up before the real limit was reached.
            (_, Err(Why::TooMany)) if u64::from(cfg.max_expansions) > w_limit => {
                r.label("too many for the reference");
                break;
            }
            (Ok(g), Err(w)) => return fail(format!("accepted: {w:?}"), format!("formula {i}: {}", g.mathml)),
            (Err(e), Ok(w)) => return fail("rejected", format!("formula {i}: {} {:?}; expected {w}", e.error_message(), e.0)),
        }
    }
    Ok((defs, uses, interesting))
}

fn c12(s: &mut Src, r: &mut Rec) -> Res {
    let mode = Mode { invalid: s.chance(1, 8), lets: s.flip(), globals: true, ordered: s.flip() };
    let (d, u, _) = history(s, r, mode, 1500)?;
    r.nontrivial = d >= 2 && u >= 2;
    Ok(())
}

fn c13(s: &mut Src, r: &mut Rec) -> Res {
    let mode = Mode { invalid: s.chance(2, 3), lets: true, globals: s.flip(), ordered: s.flip() };
    let (_, _, i) = history(s, r, mode, 1500)?;
    r.nontrivial = i;
    Ok(())
}

fn c14(s: &mut Src, r: &mut Rec) -> Res {
    let mode = Mode { invalid: false, lets: false, globals: true, ordered: s.chance(2, 3) };
    let mut w = World { global_group: s.flip(), limit: 3000, ..World::default() };
    let macros = configured(s, &mut w);
    let n = s.len(1, 3);
    let (mut srcs, mut exps) = (Vec::new(), Vec::new());
    let mut counts = Vec::new();
    let mut nums = Vec::new();
    for _ in 0..n {
        w.local.clear();
        w.n = 0;
        let mut p = Prog {
            s,
            w,
            mode,
            src: String::new(),
            exp: String::new(),
            err: None,
            defs: 0,
            uses: 0,
            lets: vec![],
            interesting: false,
        };
        p.stmts(3, 2, 6);
        if p.err.is_some_and(|e| e != Why::TooMany) {
            w = p.w;
            break;
        }
        // A definition of a name in a formula that fails may or may not have been reached.
        counts.push(if p.err.is_some() { None } else { Some(p.w.n) });
        srcs.push(p.src);
        exps.push(p.exp);
        let stop = p.err.is_some();
        w = p.w;
        nums.push(w.n);
        if stop {
            break;
        }
    }
    let max = counts.iter().flatten().copied().max().unwrap_or(0);
    let limit = match s.below(6) {
        0 => max,
        1 => max.saturating_sub(1),
        2 => max + 1,
        3 => s.below(max + 2),
        4 => counts.first().copied().flatten().unwrap_or(40),
        _ => 0,
    };
    let cfg = Cfg { macros, global_group: w.global_group, max_expansions: limit as u32, ..Cfg::default() };
    let free = Cfg { max_expansions: 100_000, ..cfg.clone() };
    r.input = format!("{} counts={counts:?} {}", cfg.show(), srcs.join("\n  "));
    r.nontrivial = max >= 2 || counts.contains(&None);
    let (mut c, mut f) = (cfg.build(), free.build());
    for (i, src) in srcs.iter().enumerate() {
        let got = c.convert_with_global_state(src, MathDisplay::Inline);
        r.evals += 1;
        let Some(n) = counts[i] else {
            if nums[i] <= limit {
                r.label("too big for the reference");
                return Ok(());
            }
            r.label("needs more than any limit");
            return match got {
                Err(e) if category(&e) == Some(Why::TooMany) => Ok(()),
                x => fail("unbounded expansion", format!("formula {i}: {:?}", outcome(&x))),
            };
        };
        if n > limit {
            r.label("above the limit");
            return match got {
                Err(e) if category(&e) == Some(Why::TooMany) => Ok(()),
                // Definitions after the point of failure differ from here on, so stop.
                x => fail("above the limit", format!("formula {i}: {n} expansions, limit {limit}: {:?}", outcome(&x))),
            };
        }
        r.label("within the limit");
        let want = f.convert_with_global_state(src, MathDisplay::Inline);
        if outcome(&got) != outcome(&want) {
            return fail(
                "within the limit",
                format!("formula {i}: {n} expansions, limit {limit}: {:?}\nunlimited {:?}", outcome(&got), outcome(&want)),
            );
        }
    }
    Ok(())
}
