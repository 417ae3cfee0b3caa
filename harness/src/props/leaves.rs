//! C37 (digits form numbers; what scripts, arguments and groups apply to).

use super::spacing::{WRAPS, find};
use super::*;
use crate::engine::{Rec, Src};
use crate::xml::Node;

/// What a formula is made of, without attributes.
#[derive(Debug, Clone, PartialEq)]
enum T {
    Leaf(&'static str, String),
    Node(&'static str, Vec<T>),
}

/// A reference reader for digits, points, letters, groups, scripts and a few commands.
struct Read<'a> {
    t: &'a [String],
    i: usize,
}

fn gap(t: &str) -> bool {
    t.starts_with([' ', '\t', '\n', '%'])
}

impl Read<'_> {
    fn next(&mut self) -> Option<String> {
        while self.t.get(self.i).is_some_and(|t| gap(t)) {
            self.i += 1;
        }
        self.t.get(self.i).cloned()
    }
    /// The token after the one which is next.
    fn after(&self) -> Option<&String> {
        self.t[self.i + 1..].iter().find(|t| !gap(t))
    }
    fn seq(&mut self) -> Vec<T> {
        let mut v = vec![];
        while let Some(t) = self.next() {
            if t == "}" || t == "]" {
                break;
            }
            if t == "\\relax " {
                self.i += 1;
                continue;
            }
            let base = if t == "^" || t == "_" { T::Node("mrow", vec![]) } else { self.atom(true) };
            v.push(self.scripts(base));
        }
        v
    }
    fn scripts(&mut self, base: T) -> T {
        let (mut sub, mut sup) = (None, None);
        while let Some(t) = self.next() {
            let to = match &*t {
                "_" => &mut sub,
                "^" => &mut sup,
                _ => break,
            };
            self.i += 1;
            *to = Some(self.arg());
        }
        // Scripts at something with scripts in front are put behind it in the same element.
        if let T::Node("mmultiscripts", k) = &base
            && k[1] == T::Node("mprescripts", vec![])
            && (sub.is_some() || sup.is_some())
        {
            let none = || T::Node("mrow", vec![]);
            let mut v = k.clone();
            v.splice(1..1, [sub.unwrap_or_else(none), sup.unwrap_or_else(none)]);
            return T::Node("mmultiscripts", v);
        }
        match (sub, sup) {
            (None, None) => base,
            (Some(a), None) => T::Node("msub", vec![base, a]),
            (None, Some(b)) => T::Node("msup", vec![base, b]),
            (Some(a), Some(b)) => T::Node("msubsup", vec![base, a, b]),
        }
    }
    fn arg(&mut self) -> T {
        self.next();
        self.atom(false)
    }
    fn atom(&mut self, whole: bool) -> T {
        let t = self.next().expect("a token");
        self.i += 1;
        let c = t.chars().next().unwrap();
        match &*t {
            "{" => {
                let v = self.seq();
                self.i += 1;
                one(v)
            }
            "\\frac" | "\\binom" => {
                let a = self.arg();
                let b = self.arg();
                let f = T::Node("mfrac", vec![a, b]);
                if t == "\\binom" {
                    T::Node("mrow", vec![T::Leaf("mo", "(".into()), f, T::Leaf("mo", ")".into())])
                } else {
                    f
                }
            }
            "\\sqrt[" => {
                let d = self.seq();
                self.i += 1;
                let a = self.arg();
                T::Node("mroot", vec![a, one(d)])
            }
            "\\phantom" => {
                let a = self.arg();
                T::Node("mphantom", row(a))
            }
            "\\prescript" => {
                let sup = self.arg();
                let sub = self.arg();
                let a = self.arg();
                T::Node("mmultiscripts", vec![a, T::Node("mprescripts", vec![]), sub, sup])
            }
            "\\mathord" | "\\mathrel" | "\\mathbin" | "\\mathpunct" | "\\mathopen" | "\\mathclose" | "\\mathinner" => match self.arg() {
                T::Node("mrow", v) if v.is_empty() => T::Leaf("mo", "\u{2063}".into()),
                T::Leaf("mo", c) => T::Leaf("mo", c),
                a => T::Node("mpadded", row(a)),
            },
            "\\int " => T::Leaf("mo", "∫".into()),
            "\\sqrt" => {
                let a = self.arg();
                T::Node("msqrt", row(a))
            }
            "\\hat" => {
                let a = self.arg();
                T::Node("mover", vec![a, T::Leaf("mo", "ˆ".into())])
            }
            "\\overset" | "\\underset" => {
                let a = self.arg();
                let b = self.arg();
                T::Node(if t == "\\overset" { "mover" } else { "munder" }, vec![b, a])
            }
            "\\alpha " => T::Leaf("mi", "α".into()),
            "\\text{5.6}" => T::Leaf("mtext", "5.6".into()),
            "+" | "," | "=" | "(" | ")" | "!" | "/" => T::Leaf("mo", t.clone()),
            _ if c.is_ascii_digit() => {
                let mut n = t.clone();
                while whole {
                    match self.next() {
                        Some(d) if d.as_bytes()[0].is_ascii_digit() => n += &d,
                        Some(d) if d == "." && self.after().is_some_and(|d| d.as_bytes()[0].is_ascii_digit()) => n += ".",
                        _ => break,
                    }
                    self.i += 1;
                }
                T::Leaf("mn", n)
            }
            _ => T::Leaf("mi", t.clone()),
        }
    }
}

fn one(v: Vec<T>) -> T {
    if v.len() == 1 { v.into_iter().next().unwrap() } else { T::Node("mrow", v) }
}

fn row(t: T) -> Vec<T> {
    match t {
        T::Node("mrow", v) => v,
        t => vec![t],
    }
}

/// Token by token, so that every argument is there.
struct G<'a> {
    s: &'a mut Src,
    t: Vec<String>,
    left: i32,
    points: u32,
}

impl G<'_> {
    fn push(&mut self, t: &str) {
        self.t.push(t.into());
    }
    fn gap(&mut self) {
        if self.s.chance(1, 12) {
            let g = self.s.pick(&[" ", "  ", "\t", "\n", "% 7.\n", "%\n"]);
            self.push(g);
        }
    }
    fn digit(&mut self) {
        let d = self.s.usize(10).to_string();
        self.push(&d);
    }
    fn seq(&mut self, depth: u32, lo: usize, hi: usize) {
        let n = self.s.long(lo, hi);
        for _ in 0..n {
            self.left -= 1;
            let d = if self.left < 0 { 0 } else { depth };
            self.item(d);
            self.gap();
        }
    }
    fn group(&mut self, depth: u32) {
        self.push("{");
        self.gap();
        self.seq(depth.saturating_sub(1), 0, 4);
        self.push("}");
    }
    fn arg(&mut self, depth: u32) {
        self.gap();
        match self.s.weighted(&[4, 1, 1, if depth > 0 { 5 } else { 0 }]) {
            0 => self.digit(),
            1 => self.push("x"),
            2 => self.push("."),
            _ => self.group(depth),
        }
    }
    fn item(&mut self, depth: u32) {
        match self.s.weighted(&[12, 7, 6, 3, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
            0 => {
                for _ in 0..self.s.long(1, 6) {
                    self.digit();
                    self.gap();
                }
            }
            1 => {
                self.points += 1;
                self.push(".");
            }
            2 => {
                let t = self.s.pick(&["x", "y", "d", "e", "\\alpha ", "K"]);
                self.push(t);
            }
            3 => {
                let t = self.s.pick(&["+", ",", "=", "(", ")", "!", "/", "\\relax ", "\\text{5.6}", "\\int "]);
                self.push(t);
            }
            4 => self.group(depth),
            _ => match self.s.usize(10) {
                4 | 5 => {
                    let t = self.s.pick(&["\\mathord", "\\mathrel", "\\mathbin", "\\mathpunct", "\\mathopen", "\\mathclose", "\\mathinner", "\\phantom"]);
                    self.push(t);
                    self.arg(depth);
                }
                6 => {
                    self.push("\\prescript");
                    self.arg(depth);
                    self.arg(depth);
                    self.arg(depth);
                }
                7 => {
                    self.push("\\sqrt[");
                    self.gap();
                    self.seq(depth.saturating_sub(1), 1, 4);
                    self.push("]");
                    self.arg(depth);
                }
                0 => {
                    let t = self.s.pick(&["\\frac", "\\frac", "\\binom"]);
                    self.push(t);
                    self.arg(depth);
                    self.arg(depth);
                }
                1 => {
                    self.push("\\sqrt");
                    self.arg(depth);
                }
                2 => {
                    self.push("\\hat");
                    self.arg(depth);
                }
                3 => {
                    let t = self.s.pick(&["\\overset", "\\underset"]);
                    self.push(t);
                    self.arg(depth);
                    self.arg(depth);
                }
                _ => {
                    // A base, then one script or two different ones.
                    match self.s.usize(5) {
                        0 => self.group(depth),
                        3 => self.push("\\int "),
                        1 => self.push("."),
                        2 => self.push("x"),
                        _ => {
                            for _ in 0..self.s.usize(4) + 1 {
                                self.digit();
                                self.gap();
                            }
                        }
                    }
                    let (a, b) = if self.s.flip() { ("_", "^") } else { ("^", "_") };
                    self.push(a);
                    self.arg(depth);
                    if self.s.flip() {
                        self.gap();
                        self.push(b);
                        self.arg(depth);
                    }
                }
            },
        }
    }
}

fn tree(e: &El) -> Option<T> {
    // Explicit spaces are no part of this property.
    let name = match &*e.name {
        "mi" | "mn" | "mo" | "mtext" => {
            let n = ["mi", "mn", "mo", "mtext"].into_iter().find(|n| *n == e.name).unwrap();
            return Some(T::Leaf(n, e.text()));
        }
        "mspace" => return None,
        "mrow" if e.attr("class").is_some_and(|c| c.starts_with("menclose")) => return None,
        n => ["mrow", "mfrac", "msqrt", "mroot", "mphantom", "mpadded", "mmultiscripts", "mprescripts", "mover", "munder", "msub", "msup", "msubsup"].into_iter().find(|m| *m == n).unwrap_or("?"),
    };
    let mut v: Vec<T> = e.els().filter_map(tree).collect();
    if matches!(name, "msqrt" | "mphantom" | "mpadded") && v.len() == 1 {
        v = row(v.remove(0));
    }
    Some(T::Node(name, v))
}

fn c37(s: &mut Src, r: &mut Rec) -> Res {
    let (mut tpl, mut name, mut idx, _, _) = s.pick(WRAPS);
    if s.flip() {
        (tpl, name, idx) = s.pick(&[
            ("\\textcolor{red}{@}x", "mrow", -1),
            ("\\newcommand\\z{@}\\z", "math", -1),
            ("\\newcommand\\z[1]{y_{#1}}\\z{@}", "msub", 1),
            ("\\newcommand\\z[2]{y_{#2}^{#1}}\\z{7}{@}", "msubsup", 1),
            ("\\begin{array}{c|c}1&@\\end{array}", "mtd:1", -1),
            ("\\let\\z\\sqrt\\z{@}", "msqrt", -1),
            ("\\mathrm{@}", "math", -1),
            ("\\rm @", "math", -1),
            ("@", "math", -1),
        ]);
    }
    let disp = crate::cfg::disp(s);
    let left = s.range(2, 20) as i32;
    let mut g = G { s, t: vec![], left, points: 0 };
    g.seq(3, 1, 6);
    let (mut toks, points) = (std::mem::take(&mut g.t), g.points);
    // The first token of a body is never dropped (pinned by the tests).
    while (tpl.contains("\\newcommand\\z{") || tpl.contains("\\mathchoice")) && toks.first().is_some_and(|t| gap(t) || t == "\\relax ") {
        toks.remove(0);
    }
    // A digit that comes behind a point or a digit reaches over the scripts in front of it: the reference reader decides.
    let mut rd = Read { t: &toks, i: 0 };
    let want = rd.seq();
    let mut text = String::new();
    for t in &toks {
        if t.starts_with(|c: char| c.is_ascii_alphabetic()) && text.rsplit('\\').next().is_some_and(|w| w.len() > 1 && w.chars().all(|c| c.is_ascii_alphabetic())) && text.contains('\\') {
            text.push(' ');
        }
        text += t;
    }
    let f = tpl.replace('@', &text);
    r.input = f.clone();
    r.nontrivial = points > 0 && text.bytes().filter(u8::is_ascii_digit).count() > 1;
    let m = match LatexToMathML::default().convert_with_local_state(&f, disp) {
        Ok(m) => m.mathml,
        Err(e) => return fail(format!("refused: {}", crate::engine::norm(&e.error_message())), f),
    };
    let root = parse(&m)?;
    let Some(mut at) = find(&root, name) else { return fail("the construct is missing", format!("{f}\n{m}")) };
    if idx >= 0 {
        let Some(k) = at.els().nth(idx as usize).cloned() else { return fail("the construct is missing", format!("{f}\n{m}")) };
        at = El { name: "mrow".into(), attrs: vec![], kids: vec![Node::El(k)] };
    }
    if tpl.contains("rm") {
        // Letters next to each other are one name here; the numbers are what they are.
        r.label("upright");
        fn numbers(t: &T, v: &mut Vec<String>) {
            match t {
                T::Leaf("mn", n) => v.push(n.clone()),
                T::Leaf(..) => {}
                T::Node(_, k) => k.iter().for_each(|t| numbers(t, v)),
            }
        }
        let (mut a, mut b) = (vec![], vec![]);
        want.iter().for_each(|t| numbers(t, &mut a));
        at.els().filter_map(tree).for_each(|t| numbers(&t, &mut b));
        if a != b {
            return fail("other numbers in an upright font", format!("{f}\nexpected {a:?}\ngot      {b:?}\n{m}"));
        }
        return Ok(());
    }
    let unwrap = |mut v: Vec<T>| {
        while v.len() == 1 && matches!(v[0], T::Node("mrow", _)) {
            v = row(v.remove(0));
        }
        v
    };
    let got = unwrap(at.els().filter_map(tree).collect());
    let want = unwrap(want);
    if got != want {
        return fail("other numbers or groups", format!("{f}\nexpected {want:?}\ngot      {got:?}\n{m}"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C37",
        rule: "a point and two digits or more",
        quick: 1_500_000,
        thorough: 20_000_000,
        enumerate: 0,
        run: c37,
        assumptions: &[
            "The start of a macro ends a number (a digit in front of \\f is not joined with those it stands for); definitions are used around the whole sequence only.",
        ],
    }]
}
