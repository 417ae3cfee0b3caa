//! C20: lengths; C21: colours.

use super::*;
use crate::cfg::{self, Cfg};
use crate::engine::{Rec, Src};
use crate::palette::PALETTE;
use crate::xml::Node;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "the length is well-formed and not zero, or is rejected for a stated reason",
            quick: 120_000,
            thorough: 6_000_000,
            enumerate: 2 * FIXED.len() as u64,
            run: c20,
            assumptions: &[
                "absolute units are compared on the documented basis of 10pt to 1rem, within 1e-5 for mm and cm and 1e-6 otherwise",
                "whether a leading plus sign, a decimal comma or more than 19 digits are accepted in a braced length is not specified",
            ],
        },
        Prop {
            id: "C21",
            rule: "at least two colours, one within or after the other, or an invalid specification, or a single specification compared exactly",
            quick: 80_000,
            thorough: 4_000_000,
            enumerate: 2 * PALETTE.len() as u64,
            run: c21,
            assumptions: &[
                "the sRGB values of the colour names are those of the palette at the pinned commit",
                "components outside the range of their model and fractional RGB components are not specified",
            ],
        },
    ]
}

/// Commands for fixed spaces, in eighteenths of an em.
const FIXED: &[(&str, i32)] = &[
    ("\\,", 3),
    ("\\thinspace", 3),
    ("\\:", 4),
    ("\\>", 4),
    ("\\medspace", 4),
    ("\\;", 5),
    ("\\thickspace", 5),
    ("\\!", -3),
    ("\\negthinspace", -3),
    ("\\negmedspace", -4),
    ("\\negthickspace", -5),
    ("\\enspace", 9),
    ("\\quad", 18),
    ("\\qquad", 36),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fam {
    Rem,
    Em,
    Ex,
}

fn unit(u: &str) -> Option<(f64, Fam, bool)> {
    Some(match u.to_ascii_lowercase().as_str() {
        "pt" => (0.1, Fam::Rem, false),
        "mm" => (0.1 * 72.27 / 25.4, Fam::Rem, false),
        "cm" => (0.1 * 72.27 / 2.54, Fam::Rem, false),
        "in" => (7.227, Fam::Rem, false),
        "sp" => (0.1 / 65536.0, Fam::Rem, false),
        "em" => (1.0, Fam::Em, false),
        "ex" => (1.0, Fam::Ex, false),
        "mu" => (1.0 / 18.0, Fam::Em, true),
        _ => return None,
    })
}

/// What a length in the source means.
enum Dim {
    Is(f64, Fam, bool),
    Bad,
    /// So many digits that it may be rejected, but not misread.
    Long(f64, Fam, bool),
    Unspecified,
}

/// An optional minus, digits with at most one point, optional space, a unit of two letters.
fn reference(t: &str, comma: bool) -> Dim {
    let t = t.trim();
    let (neg, rest, plus) = match t.strip_prefix('-') {
        Some(r) => (true, r, false),
        None => match t.strip_prefix('+') {
            Some(r) => (false, r, true),
            None => (false, t, false),
        },
    };
    let n = rest.find(|c: char| !(c.is_ascii_digit() || c == '.' || c == ',')).unwrap_or(rest.len());
    let (num, u) = rest.split_at(n);
    let has_comma = num.contains(',');
    let num = num.replace(',', ".");
    let digits = num.chars().filter(char::is_ascii_digit).count();
    if digits == 0 || num.matches('.').count() > 1 {
        return Dim::Bad;
    }
    let Some((f, fam, math)) = unit(u.trim_start()) else { return Dim::Bad };
    if !comma && (has_comma || plus) {
        return Dim::Unspecified;
    }
    let v: f64 = num.parse().unwrap_or_else(|_| format!("0{num}0").parse().unwrap());
    let v = if neg { -v * f } else { v * f };
    if digits > 19 {
        return Dim::Long(v, fam, math);
    }
    Dim::Is(v, fam, math)
}

/// A length in the output.
fn printed(t: &str) -> Result<(f64, Option<Fam>), Fail> {
    let bad = || fail("malformed length in the output", format!("{t:?}"));
    let n = t.find(|c: char| c.is_ascii_alphabetic() && c != 'e').unwrap_or(t.len());
    let n = t[..n].trim_end_matches('e').len();
    let (num, u) = t.split_at(n);
    let fam = match u {
        "rem" => Some(Fam::Rem),
        "em" => Some(Fam::Em),
        "ex" => Some(Fam::Ex),
        "" => None,
        _ => return bad(),
    };
    match num.parse::<f64>() {
        Ok(v) if v.is_finite() && (fam.is_some() || v == 0.0) => Ok((v, fam)),
        _ => bad(),
    }
}

fn same_length(got: (f64, Option<Fam>), want: f64, fam: Fam, size: f64) -> bool {
    (got.1 == Some(fam) || (got.1.is_none() && want.abs() <= 1e-5 * size + 1e-44)) && (got.0 - want).abs() <= 1.2e-5 * size + 1e-44
}

fn tight(u: &str) -> bool {
    !u.to_ascii_lowercase().contains("mm") && !u.to_ascii_lowercase().contains("cm")
}

fn number(s: &mut Src) -> String {
    let mut t = String::new();
    if s.chance(1, 3) {
        t.push('-');
    }
    let digits = |s: &mut Src, hi: usize, t: &mut String| {
        for _ in 0..s.len(1, hi) {
            t.push(char::from(b'0' + s.below(10) as u8));
        }
    };
    let long = match s.below(80) {
        0..=9 => 9,
        10 | 11 => 24,
        _ => 3,
    };
    match s.below(5) {
        0 | 1 => digits(s, long, &mut t),
        2 => {
            digits(s, long, &mut t);
            t.push('.');
            digits(s, long, &mut t);
        }
        3 => {
            t.push('.');
            digits(s, long, &mut t);
        }
        _ => {
            digits(s, long, &mut t);
            t.push('.');
        }
    }
    t
}

fn any_case(s: &mut Src, u: &str) -> String {
    if s.chance(3, 4) {
        return u.into();
    }
    u.chars().map(|c| if s.flip() { c.to_ascii_uppercase() } else { c }).collect()
}

const TEXT_UNITS: &[&str] = &["pt", "mm", "cm", "in", "ex", "em", "sp"];

/// A length, mostly well-formed.
fn length(s: &mut Src, math: bool) -> String {
    let num = number(s);
    let u = if s.chance(1, 16) != math { "mu" } else { s.pick(TEXT_UNITS) };
    let u = any_case(s, u);
    let mut t = format!("{num}{}{u}", s.pick(&["", "", "", " "]));
    if s.chance(1, 6) {
        // Damage it.
        let at = s.usize(t.len() + 1);
        match s.below(6) {
            0 => t.insert(at, s.pick(&['.', '-', '+', 'e', '0', 'p', ' ', '*', ','])),
            1 => {
                let at = at.min(t.len() - 1);
                t.remove(at);
            }
            2 => t.truncate(at),
            3 => t = format!("{num}{}", s.pick(&["px", "pc", "bp", "dd", "cc", "rem", "emm", "e", "", "p t", "m", "nm", "%", "pts", "em em", "fil"])),
            4 => t = format!("{}{u}", s.pick(&["", "-", ".", "-.", "1..2", "1.2.3", "--1", "1-", "1e5", "1 2", "0x1", "1/2", "inf", "nan"])),
            _ => t = num,
        }
    }
    t
}

fn spaces(s: &mut Src) -> &'static str {
    s.pick(&["", "", "", " ", "  "])
}

/// Put a piece of math in some surroundings, which must not change a length in it.
fn context(s: &mut Src, t: &str) -> String {
    match s.below(9) {
        0 => format!("a{{{t}}}"),
        1 => format!("x^{{{t}}}"),
        2 => format!("\\frac{{a}}{{b{t}}}"),
        3 => format!("\\begin{{matrix}}a&{t}\\\\b\\end{{matrix}}"),
        4 => format!("\\left({t}\\right)"),
        5 => format!("\\newcommand\\zz{{{t}}}\\zz"),
        6 => format!("\\newcommand\\zz[1]{{#1}}\\zz{{{t}}}"),
        7 => format!("\\sqrt{{{t}b}}"),
        _ => t.into(),
    }
}

fn convert(src: &str, c: &Cfg, d: MathDisplay) -> Result<El, Result<LatexError, Fail>> {
    match c.build().convert_with_local_state(src, d) {
        Ok(r) => parse(&r.mathml).map_err(Err),
        Err(e) => Err(Ok(*e)),
    }
}

fn c20(s: &mut Src, r: &mut Rec) -> Res {
    let i = s.below(1 << 32) as usize;
    let mut c = Cfg::default();
    let d = cfg::disp(s);
    if i < 2 * FIXED.len() {
        let (cmd, n) = FIXED[i / 2];
        let src = if i % 2 == 0 { cmd.to_string() } else { format!("a{cmd} b") };
        r.input = format!("{src:?}");
        r.nontrivial = true;
        r.label("fixed space");
        return one_space(&src, &c, d, f64::from(n) / 18.0, Fam::Em);
    }
    c.pretty = s.below(2) as u8;
    match s.below(8) {
        // Braced argument.
        0..=2 => {
            let math = s.flip();
            let l = length(s, math);
            let lead = spaces(s);
            let body = format!("\\{}{}{{{lead}{l}{}}}", if math { "mspace" } else { "hspace" }, spaces(s), spaces(s));
            let src = if s.chance(1, 6) && !l.is_empty() {
                format!("\\newcommand\\zl[1]{{\\{}{{#1}}}}\\zl{{{l}}}", if math { "mspace" } else { "hspace" })
            } else {
                context(s, &body)
            };
            r.label("braced argument");
            verdict(r, &src, &l, reference(&l, false), Some(math), &c, d)
        }
        // Bare argument.
        3..=4 => {
            let math = s.flip();
            let l = length(s, math);
            let cmd = if math { s.pick(&["mkern", "mskip"]) } else { s.pick(&["kern", "hskip"]) };
            let tail = s.pick(&["", "x", " x", "1", "\\alpha "]);
            let whole = format!("{l}{tail}");
            let space = if l.starts_with(|c: char| c.is_ascii_alphabetic()) { " " } else { spaces(s) };
            let body = format!("\\{cmd}{space}{whole}");
            let src = context(s, &body);
            r.label("bare argument");
            let head = bare_head(&whole);
            let dim = head.map_or(Dim::Bad, |h| reference(&h, true));
            verdict(r, &src, &whole, dim, Some(math), &c, d)
        }
        // Fraction line.
        5 => {
            let math = s.chance(1, 4);
            let l = length(s, math);
            let src = format!("\\genfrac(){{{}{l}{}}}{}{{a}}{{b}}", spaces(s), spaces(s), s.pick(&["{}", "0", "{1}", "2"]));
            if l.trim().is_empty() {
                return Ok(());
            }
            r.label("fraction line");
            r.input = format!("{src:?}");
            let dim = match reference(&l, false) {
                Dim::Is(_, _, true) | Dim::Long(_, _, true) => Dim::Bad,
                x => x,
            };
            match (convert(&src, &c, d), dim) {
                (Err(Err(f)), _) => Err(f),
                (_, Dim::Unspecified) | (Err(Ok(_)), Dim::Long(..)) => Ok(()),
                (Err(Ok(_)), Dim::Bad) => {
                    r.nontrivial = true;
                    Ok(())
                }
                (Err(Ok(e)), Dim::Is(..)) => fail("a length is rejected", e.error_message()),
                (Ok(e), Dim::Bad) => fail("a malformed length is accepted", e.show()),
                (Ok(e), Dim::Is(v, fam, _) | Dim::Long(v, fam, _)) => {
                    r.nontrivial = v != 0.0;
                    let got = e.find_all("mfrac")[0].attr("linethickness").unwrap_or("");
                    if !same_length(printed(got)?, v, fam, v.abs()) {
                        return fail("wrong line thickness", format!("{l:?}: {got:?}, expected {v} {fam:?}"));
                    }
                    Ok(())
                }
            }
        }
        // Raised text, nested.
        _ => {
            let mut b = Raise { s, src: String::new(), letters: vec![], bad: false, unspecified: false, boxes: 0 };
            let in_text = b.s.flip();
            if in_text {
                b.src.push_str("\\text{");
                b.seq([0.0; 3], 0.0, 3);
                b.src.push('}');
            } else {
                b.raise([0.0; 3], 0.0, 3);
            }
            let (src, letters, bad, un) = (b.src.clone(), b.letters.clone(), b.bad, b.unspecified);
            r.label("raised text");
            r.nontrivial = b.boxes > 0;
            r.input = format!("{src:?}");
            if un {
                return Ok(());
            }
            match convert(&src, &c, d) {
                Err(Err(f)) => Err(f),
                Err(Ok(_)) if bad => Ok(()),
                Err(Ok(e)) => fail("a length is rejected", e.error_message()),
                Ok(e) if bad => fail("a malformed length is accepted", e.show()),
                Ok(e) => {
                    let mut got = Vec::new();
                    offsets(&e, [0.0; 3], &mut got)?;
                    let text: String = got.iter().map(|g| g.0).collect();
                    let want: String = letters.iter().map(|g| g.0).collect();
                    if text != want {
                        return fail("raised text differs", format!("got {text:?} want {want:?}"));
                    }
                    for (g, w) in got.iter().zip(&letters) {
                        for k in 0..3 {
                            if (g.1[k] - w.1[k]).abs() > 1.2e-5 * w.2 + 1e-30 {
                                return fail(
                                    "wrong offset of raised text",
                                    format!("{:?}: {:?}, expected {:?} (rem, em, ex)\n{}", g.0, g.1, w.1, e.show()),
                                );
                            }
                        }
                    }
                    Ok(())
                }
            }
        }
    }
}

/// The part of `t` that a bare dimension consists of: sign, number, two letters.
fn bare_head(t: &str) -> Option<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let skip = |i: &mut usize| {
        while cs.get(*i).is_some_and(|c| *c == ' ') {
            *i += 1;
        }
    };
    let mut out = String::new();
    skip(&mut i);
    if let Some('+' | '-') = cs.get(i) {
        out.push(cs[i]);
        i += 1;
    }
    skip(&mut i);
    while let Some(c) = cs.get(i)
        && (c.is_ascii_digit() || *c == '.' || *c == ',')
    {
        out.push(*c);
        i += 1;
    }
    skip(&mut i);
    for _ in 0..2 {
        let c = cs.get(i)?;
        if !c.is_ascii_alphabetic() {
            return None;
        }
        out.push(*c);
        i += 1;
    }
    Some(out)
}

fn one_space(src: &str, c: &Cfg, d: MathDisplay, v: f64, fam: Fam) -> Res {
    let e = match convert(src, c, d) {
        Ok(e) => e,
        Err(Err(f)) => return Err(f),
        Err(Ok(e)) => return fail("a length is rejected", e.error_message()),
    };
    let sp = e.find_all("mspace");
    if sp.len() != 1 {
        return fail("not exactly one space", e.show());
    }
    let (w, st) = (sp[0].attr("width"), sp[0].attr("style").unwrap_or(""));
    let margin = st.strip_prefix("margin-left:").map(|t| t.trim_end_matches(';'));
    let got = match (w, margin) {
        (Some(w), None) => {
            if let Some(x) = st.strip_prefix("width:")
                && x.trim_end_matches(';') != w
            {
                return fail("the two widths of a space differ", e.show());
            }
            w
        }
        (None, Some(m)) => m,
        _ => return fail("space without width", e.show()),
    };
    let g = printed(got)?;
    if w.is_some() && g.0 < 0.0 {
        return fail("negative width attribute", e.show());
    }
    if !same_length(g, v, fam, v.abs()) {
        return fail("wrong length", format!("{got:?}, expected {v} {fam:?}"));
    }
    Ok(())
}

fn verdict(r: &mut Rec, src: &str, l: &str, dim: Dim, math: Option<bool>, c: &Cfg, d: MathDisplay) -> Res {
    r.input = format!("{src:?}");
    match dim {
        Dim::Unspecified => Ok(()),
        Dim::Long(v, fam, m) if math.is_none_or(|x| x == m) => match convert(src, c, d) {
            Err(Err(f)) => Err(f),
            Err(Ok(_)) => Ok(()),
            Ok(_) => {
                r.nontrivial = true;
                one_space(src, c, d, v, fam)
            }
        },
        Dim::Is(v, fam, m) if math.is_none_or(|x| x == m) => {
            r.nontrivial = v != 0.0;
            one_space(src, c, d, v, fam)?;
            if tight(l) {
                // The constants of the other units are exact in single precision.
                let e = convert(src, c, d).ok().unwrap();
                let sp = e.find_all("mspace")[0];
                let t = sp.attr("width").or_else(|| sp.attr("style").and_then(|t| t.strip_prefix("margin-left:"))).unwrap_or("");
                let g = printed(t.trim_end_matches(';'))?.0;
                if (g - v).abs() > 1e-6 * v.abs() + 1e-44 {
                    return fail("inexact length", format!("{g}, expected {v}"));
                }
            }
            Ok(())
        }
        _ => {
            r.nontrivial = true;
            match convert(src, c, d) {
                Ok(e) => fail("a malformed length is accepted", e.show()),
                Err(Err(f)) => Err(f),
                Err(Ok(_)) => Ok(()),
            }
        }
    }
}

struct Raise<'a> {
    s: &'a mut Src,
    src: String,
    letters: Vec<(char, [f64; 3], f64)>,
    bad: bool,
    unspecified: bool,
    boxes: u32,
}

impl Raise<'_> {
    fn letter(&mut self, at: [f64; 3], size: f64) {
        let c = crate::r#gen::letter(self.s);
        self.src.push(c);
        self.letters.push((c, at, size));
    }
    fn seq(&mut self, at: [f64; 3], size: f64, d: u32) {
        for _ in 0..self.s.long(0, 3) {
            match self.s.below(4) {
                0 if d > 0 => self.raise(at, size, d - 1),
                1 if d > 0 => {
                    let t = self.s.pick(&["\\textbf{", "{", "\\textit{", "\\text{"]);
                    self.src.push_str(t);
                    self.seq(at, size, d - 1);
                    self.src.push('}');
                }
                _ => self.letter(at, size),
            }
        }
    }
    fn raise(&mut self, mut at: [f64; 3], mut size: f64, d: u32) {
        self.boxes += 1;
        let l = length(self.s, false);
        self.src.push_str(&format!("\\raisebox{{{}{l}{}}}{{", spaces(self.s), spaces(self.s)));
        match reference(&l, false) {
            Dim::Is(v, fam, false) => {
                at[fam as usize] += v;
                size += v.abs();
            }
            Dim::Unspecified | Dim::Long(..) => self.unspecified = true,
            _ => self.bad = true,
        }
        self.seq(at, size, d);
        self.src.push('}');
    }
}

fn offsets(e: &El, at: [f64; 3], out: &mut Vec<(char, [f64; 3])>) -> Res {
    let mut at = at;
    if let Some(v) = e.attr("voffset") {
        let (x, fam) = printed(v)?;
        if let Some(f) = fam {
            at[f as usize] += x;
        }
    }
    if e.name == "mtext" {
        out.extend(e.text().chars().map(|c| (c, at)));
        return Ok(());
    }
    for k in &e.kids {
        if let Node::El(x) = k {
            offsets(x, at, out)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

type Rgb = [u8; 3];

/// A specification and the values each component may have (two at a rounding tie).
fn spec(s: &mut Src) -> (String, Vec<[u8; 2]>) {
    let same = |c: Rgb| c.iter().map(|x| [*x, *x]).collect::<Vec<_>>();
    let sp = |s: &mut Src| s.pick(&["", "", " "]);
    match s.below(5) {
        0 | 1 => {
            let (n, c) = *s.pick_ref(PALETTE);
            (format!("{{{n}}}"), same(c))
        }
        2 => {
            let c = [s.below(256) as u8, s.below(256) as u8, s.below(256) as u8];
            let t = format!("[RGB]{{{}{}{},{}{}{},{}{}}}", sp(s), c[0], sp(s), sp(s), c[1], sp(s), c[2], sp(s));
            (t, same(c))
        }
        3 => {
            let c = [s.below(256) as u8, s.below(256) as u8, s.below(256) as u8];
            let mut t = format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2]);
            match s.below(3) {
                0 => t = t.to_uppercase(),
                1 => t = t.chars().map(|x| if s.flip() { x.to_ascii_uppercase() } else { x }).collect(),
                _ => {}
            }
            (format!("[HTML]{{{t}}}"), same(c))
        }
        _ => {
            let mut parts = Vec::new();
            let mut v = Vec::new();
            for _ in 0..3 {
                let digits = s.below(5) as u32;
                let den = 10u64.pow(digits);
                let n = s.below(den + 1);
                let t = if n == den || digits == 0 {
                    if n == den { "1".into() } else { "0".into() }
                } else {
                    format!("{}.{n:0w$}", if s.chance(1, 4) { "" } else { "0" }, w = digits as usize)
                };
                let t = if n == den && s.chance(1, 3) { "1.0".into() } else { t };
                // round(255 n / den); both neighbours at a tie
                let x = 255 * n;
                let lo = (2 * x + den - 1) / (2 * den);
                let hi = (2 * x + den) / (2 * den);
                v.push([lo as u8, hi as u8]);
                parts.push(format!("{}{t}{}", sp(s), sp(s)));
            }
            (format!("[rgb]{{{}}}", parts.join(",")), v)
        }
    }
}

/// What a specification by numbers denotes: a colour, nothing, or unknown.
fn denotes(model: &str, t: &str) -> Option<bool> {
    match model {
        "HTML" => Some(t.len() == 6 && t.bytes().all(|b| b.is_ascii_hexdigit())),
        _ => {
            let p: Vec<&str> = t.split(',').map(|x| x.trim_matches(|c: char| c.is_ascii_whitespace())).collect();
            if p.len() != 3 {
                return Some(false);
            }
            for x in p {
                let digits = x.bytes().filter(u8::is_ascii_digit).count();
                let dots = x.bytes().filter(|b| *b == b'.').count();
                if digits == 0 || digits + dots != x.len() || dots > 1 {
                    // A sign is a matter of its own.
                    return if x.starts_with(['-', '+']) { None } else { Some(false) };
                }
                if model == "RGB" && (dots > 0 || x.parse::<u32>().map_or(true, |v| v > 255)) {
                    return None;
                }
                if model == "rgb" && x.parse::<f64>().map_or(true, |v| v > 1.0) {
                    return None;
                }
            }
            Some(true)
        }
    }
}

/// A valid specification with an accident.
fn broken_spec(s: &mut Src) -> Option<String> {
    let model = s.pick(&["rgb", "RGB", "HTML"]);
    let t = match model {
        "rgb" => s.pick(&["1,0,.5", "0.25,0.5,1", "0, 1, 0"]),
        "RGB" => s.pick(&["255,0,12", "1,2,3", "0, 128, 64"]),
        _ => s.pick(&["12aF09", "FFFFFF", "00ff00"]),
    };
    let mut t: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 2) {
        let i = s.usize(t.len() + 1);
        let c = s.pick(&[',', '.', '0', '5', 'a', 'G', ' ', '-', ';', '#', 'x', '/', ':', '@', 'é', '1', '\'']);
        match s.below(4) {
            0 if i < t.len() => {
                t.remove(i);
            }
            1 if i < t.len() => t[i] = c,
            2 if i < t.len() => t.insert(i, t[i]),
            _ => t.insert(i, c),
        }
    }
    let t: String = t.into_iter().collect();
    // What TeX can't even read, and `#` is a parameter.
    (denotes(model, &t) == Some(false)).then(|| format!("[{model}]{{{t}}}"))
}

fn bad_spec(s: &mut Src) -> String {
    if s.flip()
        && let Some(t) = broken_spec(s)
    {
        return t;
    }
    match s.below(5) {
        0 => {
            let (n, _) = *s.pick_ref(PALETTE);
            let mut t = n.to_string();
            match s.below(4) {
                0 => t.push(crate::r#gen::letter(s)),
                1 => {
                    t.pop();
                }
                2 => t = t.to_uppercase(),
                _ => t.insert(0, 'x'),
            }
            if PALETTE.iter().any(|p| p.0 == t) {
                t = "nocolour".into();
            }
            format!("{{{t}}}")
        }
        1 => {
            let n = s.pick(&[1usize, 2, 4, 5]);
            format!("[{}]{{{}}}", s.pick(&["rgb", "RGB"]), vec!["1"; n].join(","))
        }
        2 => {
            let n = s.pick(&[0usize, 1, 3, 5, 7, 8]);
            let t: String = (0..n).map(|_| char::from(b"0123456789abcdefABCDEF"[s.usize(22)])).collect();
            format!("[HTML]{{{t}}}")
        }
        3 => {
            let mut t: Vec<char> = "12aF09".chars().collect();
            let i = s.usize(6);
            t[i] = s.pick(&['g', 'G', 'z', '-', '.', '/', ':', '@', '`']);
            format!("[HTML]{{{}}}", t.into_iter().collect::<String>())
        }
        _ => {
            let m = s.pick(&["rgb", "RGB"]);
            let mut p = ["1".to_string(), "0".into(), "1".into()];
            let i = s.usize(3);
            p[i] = s.pick(&["", "x", "1..0", "0x1", "1-", "a", "--1", ".", "1 0"]).into();
            format!("[{m}]{{{}}}", p.join(","))
        }
    }
}

fn parse_colour(st: &str) -> Option<Rgb> {
    let t = st.split(';').find_map(|p| p.trim().strip_prefix("color:"))?.trim().strip_prefix('#')?;
    if t.len() != 6 || !t.is_ascii() {
        return None;
    }
    let h = |i: usize| u8::from_str_radix(&t[i..i + 2], 16).ok();
    Some([h(0)?, h(2)?, h(4)?])
}

fn colours(e: &El, at: Option<Rgb>, out: &mut Vec<(String, Option<Rgb>)>) -> Res {
    let mut at = at;
    if let Some(st) = e.attr("style")
        && st.contains("color")
    {
        match parse_colour(st) {
            Some(c) => at = Some(c),
            None => return fail("malformed colour", e.show()),
        }
    }
    if matches!(e.name.as_str(), "mi" | "mn" | "mo" | "mtext") {
        let t = e.text();
        if e.name == "mi" || e.name == "mn" || e.name == "mtext" {
            out.extend(t.chars().map(|c| (c.to_string(), at)));
        } else {
            out.push((t, at));
        }
        return Ok(());
    }
    for k in &e.kids {
        if let Node::El(x) = k {
            colours(x, at, out)?;
        }
    }
    Ok(())
}

type Col = Option<Vec<[u8; 2]>>;

struct Paint<'a> {
    s: &'a mut Src,
    src: String,
    want: Vec<(String, Col)>,
    colours: u32,
    bad: bool,
    budget: i32,
    pre: String,
}

impl Paint<'_> {
    fn letter(&mut self, c: &Col) {
        let l = crate::r#gen::letter(self.s);
        if self.src.ends_with(|c: char| c.is_ascii_alphabetic()) && self.src.rsplit('\\').next().is_some_and(|w| w.chars().all(|c| c.is_ascii_alphabetic())) && self.src.contains('\\') {
            self.src.push(' ');
        }
        self.src.push(l);
        self.want.push((l.to_string(), c.clone()));
    }
    fn op(&mut self, c: &Col) {
        let t = self.s.pick(&["+", "=", ",", "/", "*"]);
        self.src.push_str(t);
        self.want.push((if t == "*" { "∗".into() } else { t.into() }, c.clone()));
    }
    fn braced(&mut self, c: &Col, d: u32) {
        self.src.push('{');
        self.seq(c, d);
        self.src.push('}');
    }
    fn spec(&mut self) -> (String, Col) {
        self.colours += 1;
        if !self.bad && self.s.chance(1, 40) {
            self.bad = true;
            return (bad_spec(self.s), None);
        }
        let (t, c) = spec(self.s);
        (t, Some(c))
    }
    /// A sequence with colour switches, which reach to its end.
    fn seq(&mut self, c: &Col, d: u32) {
        let mut c = c.clone();
        for _ in 0..self.s.long(1, 4) {
            self.budget -= 1;
            if self.budget < 0 {
                return self.letter(&c);
            }
            if self.s.chance(1, 6) {
                let (t, n) = self.spec();
                self.src.push_str("\\color");
                self.src.push_str(&t);
                c = n;
            }
            self.item(&c, d);
        }
    }
    fn item(&mut self, c: &Col, d: u32) {
        if d == 0 {
            return self.letter(c);
        }
        let d = d - 1;
        match self.s.below(14) {
            0..=3 => self.letter(c),
            4 => self.op(c),
            5 => self.braced(c, d),
            6 => {
                self.src.push_str("\\frac");
                self.braced(c, d);
                self.braced(c, d);
            }
            7 => {
                self.src.push_str("\\sqrt");
                self.braced(c, d);
            }
            8 => {
                self.letter(c);
                self.src.push('_');
                self.braced(c, d);
                if self.s.flip() {
                    self.src.push('^');
                    self.braced(c, d);
                }
            }
            9 => {
                self.src.push_str("\\left(");
                self.want.push(("(".into(), c.clone()));
                self.seq(c, d);
                self.src.push_str("\\right)");
                self.want.push((")".into(), c.clone()));
            }
            10 => {
                let env = self.s.pick(&["matrix", "aligned", "pmatrix", "gathered"]);
                self.src.push_str(&format!("\\begin{{{env}}}"));
                if env == "pmatrix" {
                    self.want.push(("(".into(), c.clone()));
                }
                for i in 0..self.s.range(1, 4) {
                    if i > 0 {
                        let t = if env == "gathered" { "\\\\" } else { self.s.pick(&["&", "\\\\"]) };
                        self.src.push_str(t);
                    }
                    self.seq(c, d);
                }
                self.src.push_str(&format!("\\end{{{env}}}"));
                if env == "pmatrix" {
                    self.want.push((")".into(), c.clone()));
                }
            }
            11 => {
                self.src.push_str("\\text{");
                for _ in 0..self.s.range(1, 3) {
                    self.letter(c);
                }
                self.src.push('}');
            }
            12 => {
                // Through a macro.
                let (t, n) = self.spec();
                let name = format!("\\q{}", char::from(b'a' + (self.pre.matches("\\newcommand").count() % 26) as u8));
                if self.pre.matches("\\newcommand").count() >= 26 {
                    return self.letter(c);
                }
                self.pre.push_str(&format!("\\newcommand{name}[1]{{{{\\color{t}#1}}}}"));
                self.src.push_str(&name);
                self.braced(&n, d);
            }
            _ => {
                let (n, rgb) = *self.s.pick_ref(PALETTE);
                self.colours += 1;
                self.src.push_str(&format!("\\textcolor{{{n}}}"));
                let c = Some(rgb.iter().map(|x| [*x, *x]).collect());
                if self.s.chance(1, 4) {
                    self.letter(&c);
                } else {
                    self.braced(&c, d);
                }
            }
        }
    }
}

fn c21(s: &mut Src, r: &mut Rec) -> Res {
    let i = s.below(1 << 32) as usize;
    let d = cfg::disp(s);
    let mut c = Cfg::default();
    let (src, want, bad);
    if i < 2 * PALETTE.len() {
        let (n, rgb) = PALETTE[i / 2];
        src = if i % 2 == 0 { format!("a{{\\color{{{n}}}b}}c") } else { format!("a\\textcolor{{{n}}}{{b}}c") };
        let col: Col = Some(rgb.iter().map(|x| [*x, *x]).collect());
        want = vec![("a".to_string(), None), ("b".into(), col), ("c".into(), None)];
        bad = false;
        r.nontrivial = true;
        r.label("every name");
    } else if s.chance(1, 3) {
        if s.chance(1, 3) {
            src = format!("a{{\\color{}b}}c", bad_spec(s));
            want = vec![];
            bad = true;
            r.label("invalid specification");
        } else {
            let (t, col) = spec(s);
            src = format!("a{{\\color{}{t}b}}c", spaces(s));
            want = vec![("a".to_string(), None), ("b".into(), Some(col)), ("c".into(), None)];
            bad = false;
            r.label("single specification");
        }
        r.nontrivial = true;
    } else {
        c.pretty = s.below(2) as u8;
        let mut p = Paint { s, src: String::new(), want: vec![], colours: 0, bad: false, budget: 30, pre: String::new() };
        p.seq(&None, 4);
        src = format!("{}{}", p.pre, p.src);
        want = p.want;
        bad = p.bad;
        r.nontrivial = p.colours >= 2;
        r.label("scopes");
    }
    r.input = format!("{src:?}");
    match convert(&src, &c, d) {
        Err(Err(f)) => Err(f),
        Err(Ok(_)) if bad => Ok(()),
        Err(Ok(e)) => fail("a colour is rejected", e.error_message()),
        Ok(e) if bad => fail("an invalid colour is accepted", e.show()),
        Ok(e) => {
            let mut got = Vec::new();
            colours(&e, None, &mut got)?;
            let a: Vec<&String> = got.iter().map(|g| &g.0).collect();
            let b: Vec<&String> = want.iter().map(|g| &g.0).collect();
            if a != b {
                return fail("coloured content differs", format!("got {a:?}\nwant {b:?}"));
            }
            for (g, w) in got.iter().zip(&want) {
                let ok = match (&g.1, &w.1) {
                    (None, None) => true,
                    (Some(g), Some(w)) => g.iter().zip(w).all(|(x, y)| (y[0]..=y[1]).contains(x)),
                    _ => false,
                };
                if !ok {
                    return fail("wrong colour", format!("{:?} has {:?}, expected {:?}\n{}", g.0, g.1, w.1, e.show()));
                }
            }
            Ok(())
        }
    }
}
