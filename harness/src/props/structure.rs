//! C36: structural mistakes are reported, sound formulas are not.

use super::*;
use crate::cfg;
use crate::engine::{Rec, Src};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// A group or an argument.
    Brace,
    /// An optional argument.
    Bracket,
    Fence,
    /// A table environment with cells.
    Table,
    /// An environment with lines but without cells.
    Lines,
    /// An argument that is text.
    Text,
}

#[derive(Clone, PartialEq, Debug)]
enum P {
    /// Something complete: a symbol.
    Atom(String),
    /// A command whose argument or delimiter comes next.
    Head(String),
    Open(usize, String),
    Close(usize, String),
    /// `^` or `_` or a prime.
    Script(&'static str),
    Amp,
    Row,
    /// Whether there is a superscript, a subscript on the atom that ends here.
    End(bool, bool),
}

struct G<'a> {
    s: &'a mut Src,
    v: Vec<P>,
    kinds: Vec<(Kind, String)>,
    left: i32,
    numbered: bool,
}

const ATOMS: &[&str] = &[
    "a", "b", "x", "1", "27", "\\alpha ", "\\Gamma ", "+", "-", "=", "\\leq ", "\\times ", ",", "(", ")", "|", "!", "/", "\\to ", "\\infty ", "\\ldots ",
    "\\{", "\\}", "\\quad ", "\\,", "\\partial ", "\\hbar ", "é", "≤", "\\colon ", "\\prime ", "\\%", "\\sin ", "\\lVert ", "\\rfloor ", "\\bmod ",
];
const BASES: &[&str] = &["a", "b", "x", "2", "\\alpha ", "\\Gamma ", ")", "\\infty ", "\\ell ", "é", "+"];
const BIG: &[&str] = &["\\sum ", "\\int ", "\\lim ", "\\prod ", "\\max ", "\\bigcup ", "\\operatorname*{ab}", "∑"];
const ONE: &[&str] = &[
    "\\sqrt", "\\hat", "\\vec", "\\overline", "\\underbrace", "\\mathbf", "\\mathbb", "\\mathrm", "\\boxed", "\\phantom", "\\widehat", "\\mathrel", "\\mathord", "\\cancel",
    "\\overbrace", "\\bar", "\\mathcal", "\\mathop", "\\xrightarrow", "\\cramped",
];
const TWO: &[&str] = &["\\frac", "\\binom", "\\overset", "\\underset", "\\dfrac", "\\tfrac", "\\stackrel", "\\cfrac", "\\tbinom"];
const DELIM: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("\\{", "\\}"), ("|", "|"), ("\\langle ", "\\rangle "), (".", ")"), ("\\lfloor ", "."), (")", "(")];
const TABLES: &[(&str, usize)] = &[
    ("{matrix}", 3), ("{pmatrix}", 3), ("{bmatrix}", 2), ("{vmatrix}", 3), ("{cases}", 2), ("{aligned}", 4), ("{array}{cc}", 2), ("{array}{|l|r:c}", 3), ("{Bmatrix}", 2), ("{Vmatrix}", 2),
];

impl G<'_> {
    fn open(&mut self, k: Kind, name: &str, text: &str) -> usize {
        self.kinds.push((k, name.to_string()));
        let i = self.kinds.len() - 1;
        self.v.push(P::Open(i, text.to_string()));
        i
    }

    fn arg(&mut self, depth: u32) {
        let i = self.open(Kind::Brace, "", "{");
        self.seq(depth + 1, 0, 3);
        self.v.push(P::Close(i, "}".into()));
    }

    fn seq(&mut self, depth: u32, lo: usize, hi: usize) {
        for _ in 0..self.s.long(lo, hi) {
            self.item(depth);
        }
    }

    fn scripts(&mut self, depth: u32) {
        let (mut sup, mut sub) = (false, false);
        for _ in 0..self.s.below(3) {
            let x = self.s.pick(&["^", "_", "'"]);
            let done = if x == "_" { &mut sub } else { &mut sup };
            if *done {
                continue;
            }
            *done = true;
            self.v.push(P::Script(x));
            if x == "'" {
                continue;
            }
            if self.s.flip() {
                let a = self.s.pick(BASES);
                self.v.push(P::Atom(a.to_string()));
            } else {
                self.arg(depth);
            }
        }
        self.v.push(P::End(sup, sub));
    }

    fn item(&mut self, depth: u32) {
        self.left -= 1;
        let k = if depth > 5 || self.left < 0 { self.s.below(45) } else { self.s.below(100) };
        match k {
            0..30 => {
                let a = self.s.pick(ATOMS);
                self.v.push(P::Atom(a.into()));
            }
            30..42 => {
                let a = self.s.pick(BASES);
                self.v.push(P::Atom(a.into()));
                self.scripts(depth);
            }
            42..45 => {
                let d = self.s.pick(&["(", "]", "\\langle ", "|", "/"]);
                let h = self.s.pick(&["\\big", "\\Bigl", "\\biggr", "\\Biggm"]);
                self.v.push(P::Atom(format!("{h}{d}")));
            }
            45..52 => {
                let a = self.s.pick(BIG);
                let l = self.s.pick(&["", "", "\\limits ", "\\nolimits "]);
                self.v.push(P::Atom(format!("{a}{l}")));
                self.scripts(depth);
            }
            52..60 => {
                let h = self.s.pick(ONE);
                self.v.push(P::Head(h.into()));
                if self.s.chance(1, 5) {
                    let a = self.s.pick(BASES);
                    self.v.push(P::Atom(format!(" {a}")));
                } else {
                    self.arg(depth);
                }
                // (The script of an overbrace is not a superscript.)
                if !h.ends_with("brace") && !h.starts_with("\\x") {
                    self.scripts(depth);
                }
            }
            60..68 => {
                let h = self.s.pick(TWO);
                self.v.push(P::Head(h.into()));
                self.arg(depth);
                self.arg(depth);
            }
            68..70 => {
                // Commands which are macros inside; their arguments are not groups.
                let (h, n) = self.s.pick(&[("\\bra", 1), ("\\ket", 1), ("\\pmod", 1), ("\\braket", 1), ("\\pod", 1)]);
                self.v.push(P::Head(h.into()));
                for _ in 0..n {
                    let i = self.open(Kind::Bracket, "", "{");
                    self.seq(depth + 1, 0, 3);
                    self.v.push(P::Close(i, "}".into()));
                }
            }
            70..72 => {
                self.v.push(P::Head("\\sqrt".into()));
                let i = self.open(Kind::Bracket, "", "[");
                let a = self.s.pick(&["3", "n", "n+1", "{]}", ""]);
                self.v.push(P::Atom(a.into()));
                self.v.push(P::Close(i, "]".into()));
                self.arg(depth);
            }
            72..78 => self.arg(depth),
            78..86 => {
                let (a, b) = self.s.pick(DELIM);
                let i = self.open(Kind::Fence, "", &format!("\\left{a}"));
                self.seq(depth + 1, 0, 3);
                if self.s.chance(1, 4) {
                    self.v.push(P::Atom("\\middle|".into()));
                    self.seq(depth + 1, 0, 2);
                }
                self.v.push(P::Close(i, format!("\\right{b}")));
            }
            86..94 => {
                let (name, cols) = self.s.pick(TABLES);
                self.table(depth, name, cols, Kind::Table);
            }
            94..96 => {
                self.table(depth, "{gathered}", 1, Kind::Lines);
            }
            _ => {
                let h = self.s.pick(&["\\text", "\\textbf", "\\textrm", "\\textit", "\\texttt"]);
                self.v.push(P::Head(h.into()));
                let i = self.open(Kind::Text, "", "{");
                for _ in 0..self.s.len(0, 3) {
                    let a = self.s.pick(&["w", " ", "if ", "é", ".", "(", "\\%", "\\'e", "[", "-", "\\ldots "]);
                    if a == "\\ldots " {
                        continue;
                    }
                    self.v.push(P::Atom(a.into()));
                }
                self.v.push(P::Close(i, "}".into()));
            }
        }
    }

    fn table(&mut self, depth: u32, name: &str, cols: usize, kind: Kind) {
        let end = name.split('}').next().unwrap().to_string() + "}";
        let i = self.open(kind, &end, &format!("\\begin{name}"));
        let rows = self.s.long(1, 3);
        for r in 0..rows {
            if r > 0 {
                self.v.push(P::Row);
            }
            if kind == Kind::Table && self.s.chance(1, 10) && (end.contains("matrix") || end == "{array}") {
                self.v.push(P::Head("\\hline ".into()));
            }
            for c in 0..self.s.len(1, cols.max(1)) {
                if c > 0 {
                    self.v.push(P::Amp);
                }
                self.seq(depth + 1, 0, 3);
            }
            if self.numbered && depth == 0 && self.s.chance(1, 3) {
                let t = self.s.pick(&["\\tag{A}", "\\notag ", "\\label{l}", "\\nonumber "]);
                if !t.contains("label") || r == 0 {
                    self.v.push(P::Head(t.into()));
                }
            }
        }
        self.v.push(P::Close(i, format!("\\end{end}")));
    }
}

fn show(v: &[P]) -> String {
    let mut o = String::new();
    for p in v {
        match p {
            P::Atom(t) | P::Head(t) | P::Open(_, t) | P::Close(_, t) => o.push_str(t),
            P::Script(t) => o.push_str(t),
            P::Amp => o.push('&'),
            P::Row => o.push_str("\\\\ "),
            P::End(..) => {}
        }
    }
    o
}

/// Where the mistake is and what must be said about the place.
struct Mistake {
    kind: &'static str,
    what: String,
    text: String,
    /// The error has to point at this place.
    at: Option<(usize, usize)>,
    defs: String,
}

/// The innermost construct around the boundary in front of each piece (and the end).
fn contexts(v: &[P]) -> Vec<Vec<usize>> {
    let mut st: Vec<usize> = vec![];
    let mut o = vec![];
    for p in v {
        o.push(st.clone());
        match p {
            P::Open(i, _) => st.push(*i),
            P::Close(..) => {
                st.pop();
            }
            _ => {}
        }
    }
    o.push(st);
    o
}

fn mistake(s: &mut Src, v: &[P], kinds: &[(Kind, String)], numbered: bool) -> Option<Mistake> {
    let ctx = contexts(v);
    let inner = |b: usize| ctx[b].last().map(|i| kinds[*i].0);
    let pairs: Vec<usize> = (0..v.len())
        .filter(|&k| matches!(&v[k], P::Open(i, _) | P::Close(i, _) if kinds[*i].0 != Kind::Bracket))
        .collect();
    let made = |kind: &'static str, what: &str, v: Vec<P>| Some(Mistake { kind, what: what.into(), text: show(&v), at: None, defs: String::new() });
    match s.below(10) {
        // One end is missing.
        0 | 1 if !pairs.is_empty() => {
            let k = s.pick(&pairs);
            let mut w = v.to_vec();
            let what = match &v[k] {
                P::Open(_, t) => format!("without {}", t.trim_end()),
                P::Close(_, t) => format!("without {}", t.trim_end()),
                _ => unreachable!(),
            };
            w[k] = P::Atom(" ".into());
            made("an end is missing", &what, w)
        }
        // Two constructs cross.
        2 => {
            let c: Vec<usize> = (0..v.len().saturating_sub(1))
                .filter(|&k| match (&v[k], &v[k + 1]) {
                    (P::Close(i, a), P::Close(j, b)) => {
                        let class = |i: usize| match kinds[i].0 {
                            Kind::Brace | Kind::Text => 0,
                            Kind::Bracket => 9,
                            Kind::Fence => 1,
                            Kind::Table | Kind::Lines => 2,
                        };
                        class(*i) != 9 && class(*j) != 9 && (class(*i) != class(*j) || class(*i) == 2 && a != b)
                    }
                    _ => false,
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let k = s.pick(&c);
            let mut w = v.to_vec();
            w.swap(k, k + 1);
            made("crossing", "crossing", w)
        }
        // The end of another environment.
        3 => {
            let c: Vec<usize> = (0..v.len()).filter(|&k| matches!(&v[k], P::Close(i, _) if matches!(kinds[*i].0, Kind::Table | Kind::Lines))).collect();
            if c.is_empty() {
                return None;
            }
            let k = s.pick(&c);
            let P::Close(i, old) = &v[k] else { unreachable!() };
            let new = format!("\\end{}", s.pick(&["{matrix}", "{pmatrix}", "{array}", "{cases}", "{aligned}", "{gathered}", "{align}", "{align*}", "{gather}", "{equation}", "{bmatrix}"]));
            if new == *old {
                return None;
            }
            let mut w = v.to_vec();
            w[k] = P::Close(*i, new);
            made("the end of another environment", "the end of another environment", w)
        }
        // A second script.
        4 => {
            let c: Vec<usize> = (0..v.len()).filter(|&k| matches!(v[k], P::End(a, b) if a || b)).collect();
            if c.is_empty() {
                return None;
            }
            let k = s.pick(&c);
            let P::End(sup, sub) = v[k] else { unreachable!() };
            let x = if sup && (!sub || s.flip()) { s.pick(&["^2", "^{a}", "^\\alpha ", "\\limits^2"]) } else { s.pick(&["_2", "_{a}", "_\\beta ", "\\nolimits_2"]) };
            // Primes take a superscript along.
            let primes = {
                let mut d = 0i32;
                let mut last = false;
                for p in v[..k].iter().rev() {
                    match p {
                        P::Close(..) => d += 1,
                        P::Open(..) => d -= 1,
                        P::Script("'") if d == 0 => {
                            last = true;
                            break;
                        }
                        P::End(..) if d == 0 => break,
                        _ => {}
                    }
                    if d < 0 {
                        break;
                    }
                }
                last
            };
            if primes && x.starts_with('^') {
                return None;
            }
            let mut w = v.to_vec();
            w[k] = P::Atom(x.into());
            made("second script", "second script", w)
        }
        // Something that must not be here.
        _ => {
            let b = s.below(v.len() as u64 + 1) as usize;
            let k = inner(b);
            // Inside of an optional argument the end is found in another way.
            if ctx[b].iter().any(|i| kinds[*i].0 == Kind::Bracket) {
                return None;
            }
            let before = b.checked_sub(1).map(|x| &v[x]);
            let next = v.get(b);
            // The argument of a macro is whatever comes next.
            if matches!((before, next), (Some(P::Head(_)), Some(P::Open(i, _))) if kinds[*i].0 == Kind::Bracket) {
                return None;
            }
            let closing = matches!(next, None | Some(P::Close(..) | P::Amp));
            // The first token of an argument may be looked at in another way.
            let mut c: Vec<(&str, bool, bool)> = vec![
                // (text, points exactly here, may come out of a macro)
                ("}", false, false),
                ("{", false, false),
                ("\\right)", false, true),
                ("\\left(", false, true),
                ("\\end{matrix}", false, true),
                ("\\begin{pmatrix}", false, true),
                ("$", true, true),
                ("#1", true, false),
                ("\\nosuchcommand ", true, true),
                ("\\left a", false, true),
                ("\\big x", false, true),
                ("\\over 1\\over ", false, true),
                ("\\begin{nosuch}a\\end{nosuch}", false, false),
                ("\\color{nosuchcolour}", false, true),
                ("\\hspace{1}", false, true),
                ("\\begin{array}{q}a\\end{array}", false, false),
                ("^^", false, true),
                ("_^", false, true),
                ("\\genfrac{a}{}{}{}{b}{c}", false, true),
                ("\\genfrac(){}{x}{b}{c}", false, true),
                ("\\genfrac(){}{4}{b}{c}", false, true),
                ("\\genfrac(){}{01}{b}{c}", false, true),
                ("\\genfrac(){1mu}{0}{b}{c}", false, true),
                ("\\genfrac(){x}{0}{b}{c}", false, true),
                ("\\overbrace{a}^^b", false, true),
                ("\\overbrace{a}^_b", false, true),
                ("\\overbrace{a}^'", false, true),
                ("\\underbrace{a}_'b", false, true),
                ("\\underbrace{a}__b", false, true),
                ("\\sideset{\\limits}{}\\sum ", false, true),
                ("\\sideset{}{}\\limits\\sum ", false, true),
                ("\\sideset{}{}x", false, true),
                ("\\hspace{1mu}", false, true),
                ("\\mspace{1em}", false, true),
                ("\\kern1mu x", false, true),
                ("\\mkern1em x", false, true),
                ("\\color[foo]{red}", false, true),
                ("\\textcolor[rgb]{1,0}{x}", false, true),
                ("\\left(a\\middle x b\\right)", false, true),
            ];
            if k == Some(Kind::Text) {
                c.truncate(0);
                c.extend([
                    ("}", false, false),
                    ("{", false, false),
                    ("$", true, true),
                    ("#1", true, false),
                    ("^", false, false),
                    ("_", false, false),
                    ("&", false, false),
                    ("\\frac12", false, false),
                    ("\\sum ", false, false),
                    ("\\sqrt x", false, false),
                    ("\\left(", false, false),
                    ("\\right)", false, false),
                    ("\\nosuchcommand ", true, true),
                    ("\\end{matrix}", false, false),
                ]);
            } else {
                c.push(("\\'e", false, true));
                if !matches!(k, Some(Kind::Table)) {
                    c.push(("&", false, true));
                    c.push(("&", false, true));
                }
                if !numbered {
                    c.push(("\\tag{1}", false, true));
                    c.push(("\\label{a}", false, true));
                    c.push(("\\tag*{1}", false, true));
                }
                if matches!(before, Some(P::Atom(t)) if t.trim().chars().next_back().is_some_and(|c| c.is_alphanumeric()) && !BIG.contains(&&t[..])
                    && !matches!(b.checked_sub(2).map(|x| &v[x]), Some(P::Script(_)))
                    && !t.contains("limits") && !t.contains("\\sin") && !t.contains("\\bmod") && !t.contains("quad"))
                    || matches!(before, Some(P::Open(..)))
                {
                    c.push(("\\limits ", false, true));
                    c.push(("\\nolimits ", false, true));
                    c.push(("\\hline ", false, true));
                    if matches!(before, Some(P::Open(i, _)) if matches!(kinds[*i].0, Kind::Table)) {
                        c.pop();
                    }
                }
                if closing {
                    for x in [
                        "^", "_", "\\frac", "\\frac{a}", "\\sqrt", "\\mathbf", "\\hat", "\\text", "\\overset{a}", "\\binom a", "\\not", "\\mathrel", "\\left", "\\big", "\\phantom",
                        "\\mathchoice{a}{b}{c}", "\\operatorname", "\\genfrac(){0pt}{0}{a}", "\\underbrace", "\\prescript{a}{b}", "\\sideset{_a}{_b}", "\\color", "\\hspace", "\\sqrt[3]",
                        "\\xleftarrow[a]", "\\newcommand", "\\newcommand\\zq", "\\def", "\\let", "\\tag", "\\kern", "\\mathbin", "\\boxed", "\\textcolor{red}", "\\raisebox{1em}",
                    ] {
                        if x.ends_with("zq") && next == Some(&P::Amp) {
                            continue;
                        }
                        c.push((x, false, false));
                    }
                }
            }
            let (t, exact, in_macro) = s.pick(&c);
            // A command in front of a macro use has it as its argument.
            let macros = in_macro && s.chance(1, 3);
            let mut w = v[..b].to_vec();
            let head = show(&w);
            // (A space keeps it apart from a control word.)
            let ins = if macros { "\\zz ".to_string() } else { t.to_string() };
            w.push(P::Atom(format!(" {ins}")));
            w.extend(v[b..].iter().cloned());
            let here = head.len() + 1;
            Some(Mistake {
                kind: if macros {
                    "out of a macro"
                } else if k == Some(Kind::Text) {
                    "in text"
                } else {
                    "something stray or incomplete"
                },
                what: if macros { format!("{t} in a macro") } else { t.into() },
                text: show(&w),
                at: (exact && !macros).then_some((here, here + t.trim_end().len())),
                defs: if macros { format!("\\newcommand\\zz{{{t}}}") } else { String::new() },
            })
        }
    }
}

fn c36(s: &mut Src, r: &mut Rec) -> Res {
    let sound = s.chance(1, 4);
    let mut g = G { s, v: vec![], kinds: vec![], left: 14, numbered: false };
    if g.s.chance(1, 5) {
        let (name, cols, kind) = g.s.pick(&[
            ("{align}", 4, Kind::Table),
            ("{align*}", 2, Kind::Table),
            ("{gather}", 1, Kind::Lines),
            ("{gather*}", 1, Kind::Lines),
            ("{multline}", 1, Kind::Lines),
            ("{equation}", 1, Kind::Lines),
        ]);
        g.numbered = true;
        if name == "{equation}" {
            let i = g.open(kind, name, "\\begin{equation}");
            g.seq(1, 0, 4);
            g.v.push(P::Close(i, "\\end{equation}".into()));
        } else {
            g.table(0, name, cols, kind);
        }
    } else {
        g.seq(0, 1, 4);
    }
    let (v, kinds, numbered) = (g.v, g.kinds, g.numbered);
    let disp = cfg::disp(s);
    let config = |ign: bool| MathCoreConfig { ignore_unknown_commands: ign, ..Default::default() };
    let good = show(&v);
    if sound {
        r.input = good.clone();
        r.nontrivial = v.iter().any(|p| matches!(p, P::Open(..)));
        r.label("sound");
        let l = LatexToMathML::new(config(s.flip())).unwrap();
        return match l.convert_with_local_state(&good, disp) {
            Ok(_) => Ok(()),
            Err(e) => fail(format!("a sound formula is rejected: {}", crate::engine::norm(&e.error_message())), format!("{good}\n{:?}", e.0)),
        };
    }
    let Some(m) = mistake(s, &v, &kinds, numbered) else {
        return Ok(());
    };
    let text = format!("{}{}", m.defs, m.text);
    r.input = text.clone();
    r.nontrivial = true;
    r.label(m.kind);
    let ign = s.chance(1, 3);
    if ign && m.what.contains("\\nosuch") && !m.what.contains("{nosuch") {
        return Ok(());
    }
    let mut l = LatexToMathML::new(config(ign)).unwrap();
    let got = match s.below(3) {
        0 => l.convert_with_local_state(&text, disp),
        1 => l.convert_with_global_state(&text, disp),
        _ => l.convert_all(&[("x", MathDisplay::Inline), (&text[..], disp)]).pop().unwrap(),
    };
    match got {
        Ok(x) => fail(format!("accepted: {}", m.what), format!("{text}\n{}", x.mathml)),
        Err(e) => {
            if let Some((a, b)) = m.at
                && (e.0.start > a || e.0.end < b)
                && e.0 != (a..b)
            {
                return fail(format!("the error is not reported at {}", m.what), format!("{text}\n{:?} {}, expected at {a}..{b}", e.0, e.error_message()));
            }
            Ok(())
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C36",
        rule: "a formula with one mistake made in it, or a sound one with at least one construct that has two ends",
        quick: 600_000,
        thorough: 12_000_000,
        enumerate: 0,
        run: c36,
        assumptions: &[],
    }]
}
