//! C16: white space and comments; C17: braces that only delimit.

use super::*;
use crate::cfg::{self, Cfg};
use crate::cmds;
use crate::engine::{Rec, Src};
use crate::r#gen::{self as mathgen, FULL, Opts};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "the formula has at least four tokens, converts, and at least two of the gaps between its tokens were changed",
        quick: 150_000,
        thorough: 4_000_000,
        enumerate: 0,
        run: c16,
        assumptions: &[
            "math mode only: text arguments, names, colours, dimensions and column specifications are printed alike in both forms",
            "a run of primes is kept together with a superscript that follows it, as in LaTeX",
        ],
    }, Prop {
        id: "C17",
        rule: "the two forms of the formula differ in the braces of at least two arguments or groups, and convert",
        quick: 100_000,
        thorough: 4_000_000,
        enumerate: 0,
        run: c17,
        assumptions: &[
            "a group and the same content without it are compared where both ends of the content are ordinary atoms (a group is an ordinary atom)",
            "white space, grouping rows and the joining of adjacent letters or digits in the output are not compared",
        ],
    }]
}

/// A formula as a tree; printed with different choices of braces.
#[derive(Clone, Debug)]
enum T {
    Tok(&'static str),
    /// Command, fixed text behind its name, arguments.
    Cmd(&'static str, &'static str, Vec<Vec<T>>),
    /// Base, then scripts as (mark, argument).
    Scripts(Box<T>, Vec<(&'static str, Vec<T>)>),
    /// A place where the content may or may not be a group.
    Maybe(Vec<T>),
}

const ORD_TOKS: &[&str] = &[
    "a", "b", "x", "Z", "q", "M", "\\alpha", "\\beta", "\\Gamma", "\\infty", "\\hbar", "\\partial", "\\ell", "\\aleph",
    "\\emptyset", "\\Omega", "\\nabla", "é", "ж", "α", "∞",
];
const OP_TOKS: &[&str] = &[
    "+", "-", "=", "<", ",", "\\le", "\\to", "\\cup", "\\times", "(", "]", "\\langle", "/", "!", "\\sum", "\\int", "\\sin", "\\lim",
    "\\cdots", "\\circ", "|", "\\neg", "\\forall", "\\%", "\\&", ";", "?", "\\colon", "*", "≤", "⊕", "\\infty",
];
const DIGITS: &[&str] = &["0", "1", "2", "7"];

fn tree(s: &mut Src, depth: u32, budget: &mut i32) -> T {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || s.chance(2, 5) {
        return T::Tok(match s.below(5) {
            0 | 1 => s.pick(OP_TOKS),
            _ => s.pick(ORD_TOKS),
        });
    }
    let d = depth - 1;
    let cmd = |s: &mut Src, name: &'static str, extra: &'static str, n: usize, budget: &mut i32| {
        let args = (0..n).map(|_| targ(s, d, budget)).collect();
        T::Cmd(name, extra, args)
    };
    match s.below(17) {
        16 => {
            let set = s.pick(&[cmds::TEXT, &["operatorname", "operatorname*"]]);
            let c = s.pick(set);
            T::Cmd(c, "", vec![vec![T::Tok(s.pick(&["a", "b", "Z", "7", "+", "=", "!", "-"]))]])
        }
        0 | 1 => {
            let c = s.pick(&["frac", "dfrac", "tfrac", "cfrac", "binom", "dbinom", "tbinom"]);
            cmd(s, c, "", 2, budget)
        }
        2 => {
            let x = s.pick(&["", "", "[3]", "[n+1]"]);
            cmd(s, "sqrt", x, 1, budget)
        }
        3 => {
            let c = s.pick(cmds::ACCENT);
            cmd(s, c, "", 1, budget)
        }
        4 => {
            let c = s.pick(cmds::TRANSFORM);
            cmd(s, c, "", 1, budget)
        }
        5 => {
            let set = s.pick(&[cmds::PHANTOM, cmds::ENCLOSE, cmds::CRAMPED]);
            let c = s.pick(set);
            cmd(s, c, "", 1, budget)
        }
        6 => {
            let set = s.pick(&[cmds::OVERSET, cmds::UNDERSET]);
            let c = s.pick(set);
            cmd(s, c, "", 2, budget)
        }
        7 => {
            let c = s.pick(cmds::X_ARROW);
            cmd(s, c, "", 1, budget)
        }
        8 => {
            let c = s.pick(cmds::MATH_CLASS);
            cmd(s, c, "", 1, budget)
        }
        9 => {
            let c = s.pick(cmds::OVER_UNDER_BRACE);
            cmd(s, c, "", 1, budget)
        }
        10 => cmd(s, "prescript", "", 3, budget),
        11 | 12 => T::Maybe(ordseq(s, d, budget)),
        _ => {
            let base = match s.below(3) {
                0 => T::Tok(s.pick(&["\\sum", "\\int", "\\lim", "\\prod", "\\max"])),
                1 => T::Tok(s.pick(ORD_TOKS)),
                _ => {
                    let c = s.pick(&["frac", "binom"]);
                    cmd(s, c, "", 2, budget)
                }
            };
            let marks: &[&'static str] = match s.below(4) {
                0 => &["_"],
                1 => &["^"],
                2 => &["_", "^"],
                _ => &["^", "_"],
            };
            let sc = marks.iter().map(|m| (*m, targ(s, d, budget))).collect();
            T::Scripts(Box::new(base), sc)
        }
    }
}

fn targ(s: &mut Src, depth: u32, budget: &mut i32) -> Vec<T> {
    match s.below(8) {
        0..=2 => vec![T::Tok(s.pick(ORD_TOKS))],
        3 => vec![T::Tok(s.pick(OP_TOKS))],
        4 => vec![T::Tok(s.pick(DIGITS))],
        5 => ordseq(s, depth, budget),
        _ => {
            let n = s.long(1, 3);
            (0..n).map(|_| tree(s, depth, budget)).collect()
        }
    }
}

/// Content that begins and ends with an ordinary atom.
fn ordseq(s: &mut Src, depth: u32, budget: &mut i32) -> Vec<T> {
    let mut v = vec![T::Tok(s.pick(ORD_TOKS))];
    if s.chance(2, 3) {
        for _ in 0..s.long(0, 3) {
            v.push(tree(s, depth, budget));
        }
        v.push(T::Tok(s.pick(ORD_TOKS)));
    }
    v
}

fn put(out: &mut String, t: &str) {
    let word = out.rsplit('\\').next().is_some_and(|w| w.len() < out.len() && !w.is_empty() && w.bytes().all(|c| c.is_ascii_alphabetic()));
    if word && t.starts_with(|c: char| c.is_ascii_alphabetic()) {
        out.push(' ');
    }
    out.push_str(t);
}

/// Decisions for one printing: a bit string read in order.
struct Choices<'a> {
    s: &'a mut Src,
    /// 0: only braces around single tokens may vary; 1: also redundant braces and groups.
    level: u32,
    taken: Vec<u64>,
}

impl Choices<'_> {
    fn next(&mut self, n: u64) -> u64 {
        let c = self.s.below(n);
        self.taken.push(c);
        c
    }
}

fn print(c: &mut Choices, t: &T, out: &mut String) {
    match t {
        T::Tok(t) => put(out, t),
        T::Cmd(n, x, args) => {
            // Letters that a font does not have are upright or not depending on their neighbours.
            let n = &if c.level > 0 && cmds::TRANSFORM.contains(n) { "mathrm" } else { n };
            put(out, &format!("\\{n}"));
            put(out, x);
            for a in args {
                // An operator alone under a font is spaced differently without braces.
                let over = *n == "overset" || *n == "underset" || *n == "stackrel";
                let fixed = match a[..] {
                    [T::Tok(t)] if OP_TOKS.contains(&t) => {
                        cmds::TRANSFORM.contains(n)
                            || over && !["+", "-", "=", "<", "\\le", "\\to", "\\cup", "\\times", "\\circ", "*", "≤", "⊕"].contains(&t)
                    }
                    _ => false,
                };
                print_arg(c, a, fixed, raw_args(n) > 0, out);
            }
        }
        T::Scripts(b, sc) => {
            print(c, b, out);
            for (m, a) in sc {
                put(out, m);
                print_arg(c, a, false, false, out);
            }
        }
        T::Maybe(v) => {
            let group = c.level == 0 || c.next(2) == 1;
            if group {
                put(out, "{");
            }
            for t in v {
                print(c, t, out);
            }
            if group {
                put(out, "}");
            }
        }
    }
}

/// An atom around which braces are redundant inside an argument.
fn one_atom(a: &[T]) -> bool {
    match a {
        [T::Tok(t)] => !OP_TOKS.contains(t) || *t == "\\infty",
        _ => false,
    }
}

fn print_arg(c: &mut Choices, a: &[T], fixed: bool, raw: bool, out: &mut String) {
    let forms = match a {
        // A bare operator takes the scripts behind it along into the argument.
        [T::Tok("\\sum" | "\\int" | "\\sin" | "\\lim")] => 1,
        _ if fixed => 1,
        [T::Tok(_)] if c.level > 0 && one_atom(a) && !raw => 3,
        [T::Tok(_)] if c.level == 0 => 2,
        _ => 1,
    };
    let f = if forms > 1 { c.next(forms) } else { 0 };
    if f == 1 {
        print(c, &a[0], out);
        return;
    }
    put(out, "{");
    if f == 2 {
        put(out, "{");
    }
    for t in a {
        print(c, t, out);
    }
    if f == 2 {
        put(out, "}");
    }
    put(out, "}");
}

/// Without the spacing of operators that stand alone in an argument: it has no effect there.
fn lone(e: &crate::xml::El) -> crate::xml::El {
    let mut e = e.clone();
    let solid = e.els().filter(|k| k.name != "mspace" && !(k.name == "mrow" && k.kids.is_empty())).count();
    let row = ["math", "mrow", "mtd", "msqrt", "mstyle", "mphantom", "menclose", "mpadded"].contains(&e.name.as_str());
    let top = ["math", "mtd"].contains(&e.name.as_str());
    for k in &mut e.kids {
        if let crate::xml::Node::El(x) = k {
            *x = lone(x);
            if x.name == "mo" && (!row || (!top && solid == 1)) {
                x.attrs.retain(|(k, _)| k != "lspace" && k != "rspace");
            }
        }
    }
    e
}

fn c17(s: &mut Src, r: &mut Rec) -> Res {
    let mut budget = 14;
    let n = s.long(1, 4);
    let v: Vec<T> = (0..n).map(|_| tree(s, 4, &mut budget)).collect();
    let d = cfg::disp(s);
    let level = s.below(2) as u32;
    let show = |s: &mut Src| {
        let mut c = Choices { s, level, taken: vec![] };
        let mut out = String::new();
        for t in &v {
            print(&mut c, t, &mut out);
        }
        (out, c.taken)
    };
    let (a, ta) = show(s);
    let (b, tb) = show(s);
    r.input = format!("{} {a:?} | {b:?}", dshow(d));
    let c = Cfg::default().build();
    let (ra, rb) = (c.convert_with_local_state(&a, d), c.convert_with_local_state(&b, d));
    let (ra, rb) = match (ra, rb) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Err(_)) => return Ok(()),
        (x, y) => {
            let e = x.as_ref().err().or(y.as_ref().err()).unwrap().error_message();
            return fail(
                format!("braces decide whether the formula converts: {}", crate::engine::norm(&e)),
                format!("{a:?}: {:?}\n{b:?}: {:?}", x.map(|c| c.mathml), y.map(|c| c.mathml)),
            );
        }
    };
    let diff = ta.iter().zip(&tb).filter(|(x, y)| x != y).count();
    r.nontrivial = diff >= 2;
    r.label(if level == 0 { "single tokens" } else { "groups" });
    let same = if level == 0 {
        ra.mathml == rb.mathml || lone(&parse(&ra.mathml)?).show() == lone(&parse(&rb.mathml)?).show()
    } else { super::macros::same_rendering(&ra.mathml, &rb.mathml, true)? };
    if !same {
        return fail(
            if level == 0 { "braces around a single token change the result" } else { "redundant braces change the result" },
            format!("{a:?}\n{b:?}\n{}\n{}", ra.mathml, rb.mathml),
        );
    }
    Ok(())
}

/// Commands whose next argument is not read in math mode, and how many such arguments they take.
fn raw_args(name: &str) -> usize {
    if cmds::TEXT.contains(&name) || cmds::OPERATOR_NAME.contains(&name) || cmds::TAG.contains(&name) {
        return 1;
    }
    match name {
        "fbox" | "raisebox" | "hspace" | "mspace" | "label" | "eqref" | "ref" | "color" | "end" | "operatorname" => {
            if name == "raisebox" { 2 } else { 1 }
        }
        "textcolor" | "definecolor" => 1,
        "genfrac" => 4,
        _ => 0,
    }
}

/// Cut a formula into units between which white space does not matter. `None` when it contains
/// something this does not understand.
fn units(src: &str) -> Option<Vec<String>> {
    let toks = mathgen::tokens(src);
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    let blank = |t: &str| t.len() == 1 && t.as_bytes()[0].is_ascii_whitespace();
    // A balanced group starting at i, as raw text.
    let group = |i: &mut usize, acc: &mut String| -> Option<()> {
        while *i < toks.len() && blank(&toks[*i]) {
            *i += 1;
        }
        if *i >= toks.len() || toks[*i] != "{" {
            return None;
        }
        let mut depth = 0;
        while *i < toks.len() {
            acc.push_str(&toks[*i]);
            match toks[*i].as_str() {
                "{" => depth += 1,
                "}" => depth -= 1,
                _ => {}
            }
            *i += 1;
            if depth == 0 {
                return Some(());
            }
        }
        None
    };
    let bracket = |i: &mut usize, acc: &mut String| {
        if *i < toks.len() && toks[*i] == "[" {
            while *i < toks.len() {
                acc.push_str(&toks[*i]);
                *i += 1;
                if toks[*i - 1] == "]" {
                    break;
                }
            }
        }
    };
    while i < toks.len() {
        let t = toks[i].clone();
        i += 1;
        if blank(&t) {
            continue;
        }
        if t == "%" {
            while i < toks.len() && toks[i] != "\n" {
                i += 1;
            }
            continue;
        }
        if prime(&t) {
            let mut u = t;
            while i < toks.len() && (prime(&toks[i]) || toks[i] == "^") {
                u.push_str(&toks[i]);
                i += 1;
                if u.ends_with('^') {
                    break;
                }
            }
            out.push(u);
            continue;
        }
        if t == "#" {
            if i >= toks.len() {
                return None;
            }
            out.push(format!("#{}", toks[i]));
            i += 1;
            continue;
        }
        let Some(name) = t.strip_prefix('\\') else {
            out.push(t);
            continue;
        };
        if name.is_empty() {
            return None;
        }
        let mut u = t.clone();
        match name {
            "begin" => {
                let mut env = String::new();
                group(&mut i, &mut env)?;
                u.push_str(&env);
                out.push(u);
                if ["{array}", "{darray}", "{subarray}", "{alignat}", "{alignat*}", "{alignedat}"].contains(&env.as_str()) {
                    let mut spec = String::new();
                    group(&mut i, &mut spec)?;
                    out.push(spec);
                }
                continue;
            }
            "kern" | "mkern" | "hskip" | "mskip" => {
                while i < toks.len() && blank(&toks[i]) {
                    i += 1;
                }
                while i < toks.len() && toks[i].len() == 1 && "+-.,0123456789".contains(&toks[i]) {
                    u.push_str(&toks[i]);
                    i += 1;
                }
                while i < toks.len() && blank(&toks[i]) {
                    i += 1;
                }
                for _ in 0..2 {
                    if !toks.get(i)?.bytes().all(|c| c.is_ascii_alphabetic()) {
                        return None;
                    }
                    u.push_str(toks.get(i)?);
                    i += 1;
                }
                out.push(u);
                continue;
            }
            "def" | "gdef" => {
                if !toks.get(i)?.starts_with('\\') {
                    return None;
                }
                while i < toks.len() && toks[i] != "{" {
                    if toks[i] == "%" || toks[i] == "\\begin" || toks[i] == "\\end" {
                        return None;
                    }
                    u.push_str(&toks[i]);
                    i += 1;
                }
                // White space before the body is part of the parameter text in TeX.
                u.push_str(toks.get(i)?);
                i += 1;
                out.push(u);
                continue;
            }
            "newcommand" | "renewcommand" | "providecommand" => {
                // The name, in braces or not, and the number of parameters.
                if !toks.get(i)?.starts_with(['\\', '{']) || raw_args(toks.get(i)?.trim_start_matches('\\')) > 0 || toks[i] == "\\begin" {
                    return None;
                }
                if toks.get(i)? == "{" {
                    if toks.get(i + 2)? != "}" {
                        return None;
                    }
                    if !toks[i + 1].starts_with('\\') {
                        return None;
                    }
                    u.push_str(&toks[i..i + 3].concat());
                    i += 3;
                } else {
                    u.push_str(&toks[i]);
                    i += 1;
                }
                bracket(&mut i, &mut u);
                out.push(u);
                continue;
            }
            "let" | "global" | "long" | "outer" => {
                out.push(u);
                continue;
            }
            "operatorname" if toks.get(i).is_some_and(|t| t == "*") => {
                u.push('*');
                i += 1;
                group(&mut i, &mut u)?;
                out.push(u);
                continue;
            }
            _ => {}
        }
        let n = raw_args(name);
        for k in 0..n {
            while i < toks.len() && blank(&toks[i]) {
                i += 1;
            }
            if k == 0 {
                bracket(&mut i, &mut u);
            }
            group(&mut i, &mut u)?;
        }
        if n > 0 && (u.contains('#') || toks.iter().any(|t| t == "\\mathchoice")) {
            // A parameter used in text: white space in the argument is text. A text command as
            // unbraced argument of \mathchoice takes what follows that as its text.
            return None;
        }
        out.push(u);
    }
    Some(out)
}

fn needs_gap(a: &str, b: &str) -> bool {
    let word = a.starts_with('\\') && a.len() > 1 && a[1..].bytes().all(|c| c.is_ascii_alphabetic());
    let word = word || (a.contains('\\') && {
        let tail = a.rsplit('\\').next().unwrap();
        !tail.is_empty() && tail.bytes().all(|c| c.is_ascii_alphabetic())
    });
    word && b.starts_with(|c: char| c.is_ascii_alphabetic())
}

const SEPS: &[&str] = &[
    "", "", "", " ", " ", "\n", "\t", "   ", "\r\n", " \n\t ", "%\n", "% c { \\foo $ & }\n", " %\\\n  ", "\u{c}", "%a\n%b\n \n",
];

fn sep(s: &mut Src, must: bool) -> &'static str {
    loop {
        let x = s.pick(if must { &SEPS[3..] } else { SEPS });
        if !(must && x.is_empty()) {
            return x;
        }
    }
}

fn prime(t: &str) -> bool {
    ["'", "′", "″", "‴", "⁗", "‵", "‶", "‷"].iter().any(|p| t.starts_with(p))
}

fn join(s: &mut Src, u: &[String]) -> (String, Vec<&'static str>) {
    let mut out = String::new();
    let mut gaps = Vec::new();
    // A prime at the end of such a thing and a superscript behind it stay together.
    let carry = u.iter().any(|t| prime(t))
        && u.iter().any(|t| ["\\mathchoice", "\\def", "\\gdef", "\\newcommand", "\\renewcommand", "\\providecommand"].iter().any(|c| t.starts_with(c)));
    let first = sep(s, false);
    out.push_str(first);
    gaps.push(first);
    for (i, t) in u.iter().enumerate() {
        out.push_str(t);
        let x = match u.get(i + 1) {
            // A prime may continue the run of primes a group or a command in front of it ends in.
            Some(n) if carry && (prime(n) || n.starts_with('^') || n == "}" || n.starts_with('#') || t.ends_with('}') || t.starts_with('#')) => "",
            Some(n) if prime(n) && (t.len() > 1 || t == "}") => "",
            Some(n) if prime(t) && (n == "}" || n.starts_with('\\')) => "",
            Some(n) => sep(s, needs_gap(t, n)),
            None => sep(s, false),
        };
        out.push_str(x);
        gaps.push(x);
    }
    (out, gaps)
}

fn c16(s: &mut Src, r: &mut Rec) -> Res {
    let mut c = Cfg::default();
    if s.chance(1, 4) {
        c = cfg::any(s);
        c.annotation = false;
    }
    let d = cfg::disp(s);
    let src = match s.below(4) {
        0 => {
            let i = s.usize(mathgen::seeds().len());
            mathgen::seeds()[i].clone()
        }
        1 => mathgen::math(s, Opts { noise: 30, ..FULL }),
        _ => mathgen::math(s, FULL),
    };
    let Some(u) = units(&src) else {
        r.input = src;
        return Ok(());
    };
    let (a, ga) = join(s, &u);
    let (b, gb) = join(s, &u);
    r.input = format!("{} {} {a:?} | {b:?}", c.show(), dshow(d));
    let ra = c.build().convert_with_local_state(&a, d);
    let rb = c.build().convert_with_local_state(&b, d);
    r.nontrivial = u.len() >= 4 && ra.is_ok() && ga.iter().zip(&gb).filter(|(x, y)| x != y).count() >= 2;
    r.label(if ra.is_ok() { "converts" } else { "rejected" });
    match (&ra, &rb) {
        (Ok(x), Ok(y)) => {
            if x.mathml != y.mathml {
                return fail("white space changes the result", format!("{a:?}\n{b:?}\n{}\n{}", x.mathml, y.mathml));
            }
            if x.warnings.has_undefined_references() != y.warnings.has_undefined_references()
                || x.warnings.has_unknown_commands() != y.warnings.has_unknown_commands()
            {
                return fail("white space changes the warnings", format!("{a:?}\n{b:?}"));
            }
        }
        (Err(x), Err(y)) => {
            if x.error_message() != y.error_message() {
                return fail(
                    "white space changes the error",
                    format!("{a:?}\n{b:?}\n{}\n{}", x.error_message(), y.error_message()),
                );
            }
        }
        (x, y) => {
            return fail(
                format!(
                    "white space decides whether the formula converts: {}",
                    crate::engine::norm(&x.as_ref().err().or(y.as_ref().err()).unwrap().error_message())
                ),
                format!("{a:?}: {:?}\n{b:?}: {:?}", x.as_ref().map(|c| &c.mathml), y.as_ref().map(|c| &c.mathml)),
            );
        }
    }
    Ok(())
}
