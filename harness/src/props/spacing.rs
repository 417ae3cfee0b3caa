//! C30 (spacing by atom classes).

use super::*;
use crate::engine::{Rec, Src};
use crate::umath::{DICT, UMATH};

/// Default spaces of an operator, in 1/18 em, by MathML Core's operator dictionary.
fn dict(t: &str, form: &str) -> (i32, i32) {
    let mut i = t.chars();
    let c = i.next().unwrap_or(' ') as u32;
    let rest: String = i.collect();
    let base = rest.is_empty() || rest.chars().all(|c| c == '\u{338}' || c == '\u{20d2}');
    let by = |cat: char| match cat {
        'A' => (5, 5),
        'B' => (4, 4),
        'C' | 'H' | 'J' => (3, 3),
        'L' => (3, 0),
        'M' => (0, 3),
        _ => (0, 0),
    };
    if !base {
        return (5, 5);
    }
    let find = |form: &str| {
        DICT.iter().find(|d| d.0 <= c && c <= d.1 && d.3 == form).map(|d| by(d.2))
    };
    if let Some(x) = find(form) {
        return x;
    }
    if form == "infix" && [0x7c, 0x2016, 0x223c].contains(&c) {
        return (5, 5);
    }
    for f in ["infix", "postfix", "prefix"] {
        if let Some(x) = find(f) {
            return x;
        }
    }
    (5, 5)
}

/// A length in 1/18 em.
fn mu(v: &str) -> Option<i32> {
    if v == "0" {
        return Some(0);
    }
    let x: f64 = v.strip_suffix("em")?.parse().ok()?;
    let y = (x * 18.0).round();
    ((x * 18.0 - y).abs() < 0.01).then_some(y as i32)
}

#[derive(Clone, Debug)]
enum Item {
    Box(String, i32, i32),
    Space(i32),
}

const ROWS: &[&str] = &["mrow", "mstyle", "mphantom", "mpadded", "math", "mtd", "msqrt", "menclose", "merror"];
const BASED: &[&str] = &["msub", "msup", "msubsup", "munder", "mover", "munderover", "mmultiscripts"];

fn space_like(e: &El) -> bool {
    match e.name.as_str() {
        "mspace" => true,
        "mtext" => true,
        "mrow" | "mstyle" | "mphantom" | "mpadded" => e.els().all(space_like),
        _ => false,
    }
}

/// The operator an embellished operator is built around.
pub fn core_op(e: &El) -> Option<&El> {
    match e.name.as_str() {
        "mo" => Some(e),
        n if BASED.contains(&n) || n == "mfrac" => core_op(e.els().next()?),
        "mrow" | "mstyle" | "mphantom" | "mpadded" => {
            let k: Vec<&El> = e.els().filter(|x| !space_like(x)).collect();
            if k.len() == 1 { core_op(k[0]) } else { None }
        }
        _ => None,
    }
}

fn op_space(mo: &El, form: &str) -> Result<(i32, i32), String> {
    let form = mo.attr("form").unwrap_or(form);
    let (mut l, mut r) = dict(&mo.text(), form);
    if let Some(v) = mo.attr("lspace") {
        l = mu(v).ok_or(format!("length {v}"))?;
    }
    if let Some(v) = mo.attr("rspace") {
        r = mu(v).ok_or(format!("length {v}"))?;
    }
    Ok((l, r))
}

/// The boxes of a row and the space around each.
fn flatten(row: &El, strict: bool, out: &mut Vec<Item>) -> Result<(), String> {
    flatten_as(row, None, strict, out)
}

/// `given`: the form of the operator the row is built around, if it is.
fn flatten_as(row: &El, given: Option<&str>, strict: bool, out: &mut Vec<Item>) -> Result<(), String> {
    let kids: Vec<&El> = row.els().collect();
    let counted: Vec<usize> = (0..kids.len()).filter(|i| !strict || !space_like(kids[*i])).collect();
    for (i, k) in kids.iter().enumerate() {
        let form = if counted.len() > 1 && counted.first() == Some(&i) {
            "prefix"
        } else if counted.len() > 1 && counted.last() == Some(&i) {
            "postfix"
        } else {
            "infix"
        };
        one(k, given.unwrap_or(form), strict, out)?;
    }
    Ok(())
}

fn one(k: &El, form: &str, strict: bool, out: &mut Vec<Item>) -> Result<(), String> {
    if k.name == "mspace" {
        let mut w = k.attr("width").map(|w| mu(w).ok_or(format!("width {w}"))).transpose()?.unwrap_or(0);
        for d in k.attr("style").unwrap_or("").split(';') {
            if let Some(v) = d.strip_prefix("margin-left:") {
                w += mu(v).ok_or(format!("margin {v}"))?;
            }
        }
        out.push(Item::Space(w));
        return Ok(());
    }
    let row = ROWS.contains(&k.name.as_str()) && k.name != "msqrt" && k.name != "menclose";
    let core = core_op(k);
    if let Some(mo) = core && !row {
        let (mut l, mut r) = op_space(mo, form)?;
        padding(k, &mut l, &mut r)?;
        out.push(Item::Box(k.text(), l, r));
        return Ok(());
    }
    if row {
        let n = out.len();
        flatten_as(k, core.map(|_| form), strict, out)?;
        let (mut l, mut r) = (0, 0);
        if k.name == "mpadded" {
            padding(k, &mut l, &mut r)?;
        }
        if l != 0 || r != 0 {
            out.insert(n, Item::Space(l));
            out.push(Item::Space(r));
        }
        return Ok(());
    }
    out.push(Item::Box(k.text(), 0, 0));
    Ok(())
}

fn padding(k: &El, l: &mut i32, r: &mut i32) -> Result<(), String> {
    if k.name != "mpadded" {
        return Ok(());
    }
    for d in k.attr("style").unwrap_or("").split(';') {
        if let Some(v) = d.strip_prefix("padding-left:") {
            *l += mu(v).ok_or(format!("padding {v}"))?;
        } else if let Some(v) = d.strip_prefix("padding-right:") {
            *r += mu(v).ok_or(format!("padding {v}"))?;
        }
    }
    Ok(())
}

/// The spaces before the first box, between the boxes and after the last.
fn gaps(items: &[Item]) -> (Vec<String>, Vec<i32>) {
    let mut names = vec![];
    let mut g = vec![0];
    for i in items {
        match i {
            Item::Space(w) => *g.last_mut().unwrap() += w,
            Item::Box(t, l, r) if t == "\u{2063}" => *g.last_mut().unwrap() += l + r,
            Item::Box(t, l, r) => {
                *g.last_mut().unwrap() += l;
                names.push(t.clone());
                g.push(*r);
            }
        }
    }
    (names, g)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Ord,
    Op,
    Bin,
    Rel,
    Open,
    Close,
    Punct,
    Inner,
}
use K::*;

/// TeX's table (The TeXbook, chapter 18); negative: not in script styles.
#[rustfmt::skip]
const TEX: [[i32; 8]; 8] = [
    //        Ord Op Bin Rel Open Close Punct Inner
    /*Ord  */ [0, 3, -4, -5,  0,  0,  0, -3],
    /*Op   */ [3, 3,  0, -5,  0,  0,  0, -3],
    /*Bin  */ [-4,-4, 0,  0, -4,  0,  0, -4],
    /*Rel  */ [-5,-5, 0,  0, -5,  0,  0, -5],
    /*Open */ [0, 0,  0,  0,  0,  0,  0,  0],
    /*Close*/ [0, 3, -4, -5,  0,  0,  0, -3],
    /*Punct*/ [-3,-3, 0, -3, -3, -3, -3, -3],
    /*Inner*/ [-3, 3,-4, -5, -3,  0, -3, -3],
];

fn tex(ks: &[K], script: bool) -> Vec<i32> {
    let mut ks = ks.to_vec();
    for i in 0..ks.len() {
        if ks[i] == Bin && (i == 0 || matches!(ks[i - 1], Bin | Op | Rel | Open | Punct)) {
            ks[i] = Ord;
        }
        if matches!(ks[i], Rel | Close | Punct) && i > 0 && ks[i - 1] == Bin {
            ks[i - 1] = Ord;
        }
    }
    if ks.last() == Some(&Bin) {
        *ks.last_mut().unwrap() = Ord;
    }
    let mut g = vec![0];
    for w in ks.windows(2) {
        let x = TEX[w[0] as usize][w[1] as usize];
        g.push(if x < 0 { if script { 0 } else { -x } } else { x });
    }
    g.push(0);
    g
}


/// Characters of unicode-math's table whose class here is another by design: the active primes,
/// `:` (a relation in LaTeX) and `·`, what the operator dictionary has no use for, arrows that
/// unicode-math files as ordinary.
const LEFT_OUT: &str = "?\u{2adc}⌅⌆⌽⟠⟡⟢⟣⟤⟥⧍⧖⧗⧫⧾⧿⩡⫴⫵⫻·⩱⩲⨟⨠⨡𞻰𞻱{}√∛∜⟌#$&\\%′″‴‵‶‷⁗⤫⤬⤭⤮⤯⤰⤱⤲⤴⤵⧠⫡:⁐⌿▵⟓⟔⫙⫚⫛⫝⫝̸⫬⫭⫯⫰⩙~^_'";
/// Commands whose class is LaTeX's and not the one unicode-math gives their character.
const LEFT_OUT_CMD: &[&str] = &["lVert", "rVert", "lvert", "rvert", "dashleftarrow", "dashrightarrow", "triangle", "circlearrowleft", "circlearrowright", "vartriangle", "dag", "ddag", "cdotp", "Join", "bigtriangledown", "therefore", "because", "blacktriangleright", "blacktriangleleft", "colon", "sqrt", "surd"];

struct Pool {
    of: [Vec<String>; 8],
}

fn class_of(c: &str) -> Option<K> {
    Some(match c {
        "ord" | "alpha" | "fence" => Ord,
        "bin" => Bin,
        "rel" => Rel,
        "open" => Open,
        "close" => Close,
        "punct" => Punct,
        "op" => Op,
        _ => return None,
    })
}

fn pool() -> &'static Pool {
    static P: std::sync::OnceLock<Pool> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool { of: Default::default() };
        for (c, _, cl) in UMATH {
            if LEFT_OUT.contains(*c) || c.is_ascii_alphanumeric() || "[]".contains(*c) {
                continue;
            }
            if let Some(k) = class_of(cl) {
                p.of[k as usize].push(c.to_string());
            }
        }
        // Commands, with the class of the character they stand for; those of LaTeX's own that
        // differ are left out.
        for (n, ch) in crate::umath::NAMED {
            if LEFT_OUT_CMD.contains(n) || ch.chars().count() > 1 {
                continue;
            }
            let c = ch.chars().next().unwrap();
            if LEFT_OUT.contains(c) || !c.is_alphabetic() && c.is_ascii() {
                continue;
            }
            if let Some((_, _, cl)) = UMATH.iter().find(|u| u.0 == c) {
                if let Some(k) = class_of(cl) {
                    p.of[k as usize].push(format!("\\{n} "));
                }
            }
        }
        for (k, t) in [
            (Op, "\\sin "), (Op, "\\log "), (Op, "\\operatorname{foo}"), (Op, "\\mathop{x}"), (Op, "\\mathop{=}"), (Op, "\\lim "), (Op, "\\max "),
            (Op, "\\mathop{xy}"), (Op, "\\operatorname*{arg max}"),
            (Bin, "+"), (Bin, "-"), (Bin, "*"), (Bin, "\\mathbin{x}"), (Bin, "\\mathbin{xy}"), (Bin, "\\mathbin{=}"), (Bin, "\\mathbin{|}"),
            (Rel, "="), (Rel, "<"), (Rel, ">"), (Rel, ":"), (Rel, "\\mathrel{x}"), (Rel, "\\mathrel{xy}"), (Rel, "\\mathrel{+}"), (Rel, "\\stackrel{a}{=}"),
            (Rel, "\\overset{a}{=}"), (Rel, "\\underset{a+b}{\\to}"), (Rel, "\\not="), 
            (Rel, "\\vartriangle "), (Rel, "\\circlearrowright "), (Ord, "\\triangle "), (Rel, "\\bigm|"), (Rel, "\\Bigm/"), (Rel, "\\mathrel{\\frac12}"), (Rel, "\\neq "), (Rel, "\\coloneqq "),
            (Bin, "\\overset{a}{+}"), (Bin, "\\underset{a}{\\times}"),
            (Open, "("), (Open, "["), (Open, "\\{"), (Open, "\\bigl("), (Open, "\\Bigl|"), (Open, "\\mathopen{x}"), (Open, "\\mathopen{|}"), (Open, "\\lvert "),
            (Close, ")"), (Close, "]"), (Close, "\\}"), (Close, "!"), (Close, "\\biggr\\rangle "), (Close, "\\mathclose{x}"), (Close, "\\mathclose{(}"), (Close, "\\rVert "),
            (Punct, ","), (Punct, ";"), (Punct, "\\mathpunct{x}"), (Punct, "\\mathpunct{=}"), (Punct, "\\mathpunct{xy}"), (Punct, "\\colon "), (Punct, "\\cdotp "), (Punct, "\\ldotp "), (Op, "\\bigodot "), (Op, "\\limsup "), (Op, "\\det "), (Rel, "\\nsubseteq "), (Rel, "\\nleq "), (Close, "\\rvert "), (Open, "\\lbrace "), (Open, "\\lfloor "), (Close, "\\rceil "), (Open, "\\langle "), (Close, "\\rbrace "), (Rel, "\\mid "), (Rel, "\\parallel "), (Ord, "\\vert "), (Ord, "\\Vert "), (Ord, "\\backslash "), (Ord, "\\prime "), (Ord, "\\&"),
            (Inner, "\\cdots "), (Inner, "\\ldots "), (Inner, "\\mathinner{x}"), (Inner, "\\mathinner{=}"), (Inner, "\\mathinner{xy}"),
            (Ord, "/"), (Ord, "|"), (Ord, "."), (Ord, "\\frac12"), (Ord, "\\sqrt x"), (Ord, "\\hat x"), (Ord, "\\mathord{=}"), (Ord, "\\mathord{+}"),
            (Ord, "\\mathord{x}"), (Ord, "\\text{a}"), (Ord, "\\overline{x}"), (Ord, "\\mathbf x"), (Ord, "\\big("), (Ord, "\\Big|"),
            (Ord, "\\mathrm{d}"), (Ord, "\\infty "), (Ord, "\\underline x"), (Ord, "\\sqrt[3]x"), (Ord, "\\boldsymbol\\alpha "), (Ord, "\\%"),
            (Ord, "\\sqrt[n+1]{x}"), (Ord, "\\sqrt[]{x}"), (Ord, "\\sqrt[\\frac12]x"), (Ord, "\\dfrac{a+b}2"), (Ord, "\\tfrac12"), (Ord, "\\cfrac12"),
            (Ord, "\\binom{a+b}c"), (Ord, "\\dbinom12"), (Ord, "\\tbinom12"), (Ord, "{a\\choose b+c}"), (Ord, "{a\\over b}"), (Ord, "{\\frac12\\brace x}"),
            (Ord, "\\underbrace{a}_{b+c}"), (Ord, "\\overbrace{a+b}^c"), (Ord, "\\prescript{a}{b+c}{x}"), (Ord, "\\cramped[\\scriptstyle]{x}"), (Ord, "\\cramped{x}"),
            (Ord, "{\\scriptstyle a}"), (Ord, "{\\scriptscriptstyle\\frac12}"), (Ord, "{\\bf a}"), (Ord, "{\\color{red}a}"), (Ord, "\\textcolor{red}{a}"), (Ord, "{\\scriptstyle a\\over b}"),
            (Ord, "\\boxed{a+b}"), (Ord, "\\cancel{x}"), (Ord, "\\vphantom{x}"), (Ord, "\\mathchoice{a}{b}{c}{d}"), (Ord, "\\genfrac{}{}{}3{a+b}2"),
            (Rel, "\\overset{\\frac12}{\\to}"), (Op, "\\sideset{_a}{^b}\\sum "), (Op, "\\sideset{}{'}\\prod "),
            (Rel, "\\xrightarrow{a}"), (Rel, "\\xleftarrow[b+c]{}"), (Rel, "\\xmapsto{\\frac12}"), (Rel, "\\xlongequal[=]{a}"), (Rel, "\\xhookrightarrow{}"),
            (Ord, "\\hat{=}"), (Ord, "\\overline{+}"), (Ord, "\\phantom{x}"), (Ord, "\\hphantom{=}"), (Ord, "\\genfrac{}{}{}{}12"),
        ] {
            p.of[k as usize].push(t.into());
        }
        p
    })
}

/// An atom: its class, its text and the spaces inside it (one more than it has boxes).
struct At {
    k: K,
    t: String,
    inner: Vec<i32>,
    space: Option<i32>,
}

const SPACES: &[(&str, i32)] = &[("\\,", 3), ("\\;", 5), ("\\!", -3), ("\\quad ", 18), ("\\hspace{1em}", 18), ("\\hspace{-0.5em}", -9), ("\\mskip4mu ", 4), ("\\qquad ", 36)];

fn join(ats: &[At], script: bool) -> Vec<i32> {
    let ks: Vec<K> = ats.iter().filter(|a| a.space.is_none()).map(|a| a.k).collect();
    let glue = tex(&ks, script);
    let mut g = vec![0];
    let mut i = 0;
    for a in ats {
        if let Some(w) = a.space {
            *g.last_mut().unwrap() += w;
            continue;
        }
        *g.last_mut().unwrap() += glue[i] + a.inner[0];
        i += 1;
        g.extend(&a.inner[1..]);
    }
    *g.last_mut().unwrap() += *glue.last().unwrap();
    g
}

fn seq(s: &mut Src, script: bool, start: Option<K>, end: Option<K>, depth: u32, hi: usize, defs: &mut Vec<String>) -> (String, Vec<i32>, Vec<K>) {
    let n = s.long(1, hi);
    let mut ats: Vec<At> = vec![];
    if let Some(k) = start {
        ats.push(At { k, t: String::new(), inner: vec![0], space: None });
    }
    // What a stack is followed by: anything that an operator in front of it is not changed by.
    let mut after = false;
    let mut switched = false;
    for _ in 0..n {
        let k = if std::mem::take(&mut switched) {
            // Not a sign: see the known findings.
            [Ord, Op, Rel, Open, Close, Punct, Inner][s.usize(7)]
        } else if after { [Ord, Op, Bin, Open, Inner][s.weighted(&[6, 3, 5, 3, 2])] } else { [Ord, Op, Bin, Rel, Open, Close, Punct, Inner][s.weighted(&[6, 3, 5, 4, 2, 2, 2, 2])] };
        let was = std::mem::take(&mut after);
        let digit = ats.iter().rev().find(|a| a.space.is_none()).is_some_and(|a| a.t.ends_with(|c: char| c.is_ascii_digit()));
        let mut a = match (k, s.below(12)) {
            (Ord, 0..=4) => At { k, t: crate::r#gen::letter(s).to_string(), inner: vec![0, 0], space: None },
            (Ord, 5) if !digit => At { k, t: s.below(10).to_string(), inner: vec![0, 0], space: None },
            (Ord, 6) if depth > 0 => {
                let (t, g, _) = seq(s, script, None, None, depth - 1, 4, defs);
                At { k, t: format!("{{{t}}}"), inner: g, space: None }
            }
            (Ord, 7) => At { k, t: "{}".into(), inner: vec![0], space: None },
            (_, x) => {
                let p = &pool().of[k as usize];
                // Characters one time, what is written out above another.
                let i = if x < 9 { s.usize(p.len()) } else { p.len() - 1 - s.usize(p.len().min(9)) };
                let inner = if p[i].contains("{xy}") { vec![0, 0, 0] } else if p[i].starts_with("\\ldots") { vec![0, if script { 0 } else { 3 }, if script { 0 } else { 3 }, 0] } else if p[i].contains("binom") || p[i].contains("\\choose") || p[i].contains("\\brace ") { vec![0; 4] } else if p[i].starts_with("\\x") && k == Rel { vec![5, 5] } else { vec![0, 0] };
                At { k, t: p[i].clone(), inner, space: None }
            }
        };
        let stacked = a.t.starts_with("\\overset") || a.t.starts_with("\\underset") || a.t.starts_with("\\stackrel");
        if a.inner.len() > 1 && !stacked && !a.t.starts_with("\\ldots") && !(k == Rel && a.t.starts_with("\\x")) && !a.t.starts_with("\\sideset") && !a.t.starts_with('{') && !(a.t.starts_with("\\math") && k != Ord) && s.chance(1, 8) {
            let sc = s.pick(&["_a", "^2", "_{i=0}^n", "^{+}"]);
            // A letter after a bare script is a token of its own.
            a.t = format!("{}{sc}{}", a.t, if sc.ends_with('}') { "" } else { " " });
            a.inner = vec![0, 0];
            ats.push(a);
            if matches!(k, Bin | Rel | Punct | Inner) {
                // What follows a scripted operator is not looked at for its right side.
                ats.push(At { k: Ord, t: crate::r#gen::letter(s).to_string(), inner: vec![0, 0], space: None });
            }
            continue;
        }
        // A stacked sign which lacks its first operand is ordinary, as it looks from before.
        let unary = stacked && k == Bin && ats.last().is_some_and(|a| a.space.is_none() && matches!(a.k, Rel | Open | Punct | Op)) && s.flip();
        if stacked && !unary {
            // Nor is a stack looked into from before.
            let mut b = At { k: Ord, t: crate::r#gen::letter(s).to_string(), inner: vec![0, 0], space: None };
            if !was && s.chance(1, 3) {
                let (k, t) = *s.pick_ref(&[(Close, ")"), (Close, "\\rangle "), (Close, "]"), (Close, "!")]);
                (b.k, b.t) = (k, t.to_string());
            }
            ats.push(b);
        }
        ats.push(a);
        if unary {
            continue;
        }
        if stacked {
            after = true;
            continue;
        }
        if k == Inner {
            // What follows is looked at for its class alone, which of a sign without an operand
            // after it is not yet known.
            let mut b = At { k: Ord, t: crate::r#gen::letter(s).to_string(), inner: vec![0, 0], space: None };
            if s.flip() {
                let (k, t) = *s.pick_ref(&[(Rel, "="), (Open, "("), (Close, ")"), (Punct, ","), (Op, "\\sum "), (Ord, "x")]);
                (b.k, b.t) = (k, t.to_string());
            }
            ats.push(b);
        }
        if s.chance(1, 12) {
            // A switch holds no place.
            let t = if script { s.pick(&["\\scriptstyle ", "\\scriptscriptstyle ", "\\color{red}"]) } else { s.pick(&["\\displaystyle ", "\\textstyle ", "\\color{red}", "\\color{red}"]) };
            ats.push(At { k: Ord, t: t.into(), inner: vec![], space: Some(0) });
            switched = true;
            if !matches!(k, Ord | Close) {
                // Nor is it looked past from before.
                ats.push(At { k: Ord, t: crate::r#gen::letter(s).to_string(), inner: vec![0, 0], space: None });
            }
        }
        if s.chance(1, 10) {
            let (t, w) = s.pick(if matches!(k, Ord | Open | Close) { SPACES } else { &SPACES[..4] });
            ats.push(At { k: Ord, t: t.into(), inner: vec![], space: Some(w) });
        }
    }
    if after {
        ats.push(At { k: Ord, t: crate::r#gen::letter(s).to_string(), inner: vec![0, 0], space: None });
    }
    if let Some(k) = end {
        ats.push(At { k, t: String::new(), inner: vec![0], space: None });
    }
    let g = join(&ats, script);
    if end.is_some() {
        ats.pop();
    }
    let ks = ats.iter().filter(|a| a.space.is_none()).skip(usize::from(start.is_some())).map(|a| a.k).collect();
    // Where the atoms come from.
    let mut t = String::new();
    for a in &ats {
        match s.below(16) {
            0 => t += " ",
            1 => t += "%\n",
            _ => {}
        }
        // An atom given as an argument is not seen through by the atom before it; that only
        // matters where the one before has a choice.
        let plain = a.space.is_none() && a.k == Ord;
        match s.below(24) {
            0 if plain => t += &format!("\\Id{{{}}}", a.t),
            1 if plain => t += &format!("\\M{{{}}}", a.t),
            2 | 3 if defs.len() < 6 && a.space.is_none() => {
                let n = ["\\Aa", "\\Bb", "\\Cc", "\\Dd", "\\Ee", "\\Ff"][defs.len()];
                defs.push(format!("\\newcommand{n}{{{}}}", a.t));
                t += n;
                t += " ";
            }
            _ => t += &a.t,
        }
    }
    (t, g, ks)
}

/// Formula around the sequence, where its row is in the output (the first element of the name, all
/// of it or one of its children), and whether script spacing applies (inline, block).
#[rustfmt::skip]
pub(super) const WRAPS: &[(&str, &str, i32, bool, bool)] = &[
    ("@", "math", -1, false, false),
    ("@", "math", -1, false, false),
    ("@", "math", -1, false, false),
    ("@", "math", -1, false, false),
    ("x_{@}", "msub", 1, true, true),
    ("x^{@}", "msup", 1, true, true),
    ("x_a^{@}", "msubsup", 2, true, true),
    ("\\frac{@}{2}", "mfrac", 0, true, false),
    ("\\frac{1}{@}", "mfrac", 1, true, false),
    ("\\dfrac{@}{2}", "mfrac", 0, false, false),
    ("\\tfrac{@}{2}", "mfrac", 0, true, true),
    ("\\cfrac{@}{2}", "mfrac", 0, false, false),
    ("\\sqrt{@}", "msqrt", -1, false, false),
    ("\\sqrt[3]{@}", "mroot", 0, false, false),
    ("\\sqrt[{@}]{x}", "mroot", 1, true, true),
    ("\\begin{matrix}@\\end{matrix}", "mtd", -1, false, false),
    ("\\begin{cases}@\\end{cases}", "mtd", -1, false, false),
    ("\\begin{subarray}{c}@\\end{subarray}", "mtd", -1, true, true),
    ("\\begin{gathered}@\\end{gathered}", "mtd", -1, false, false),
    ("\\overset{@}{x}", "mover", 1, true, true),
    ("\\underset{@}{x}", "munder", 1, true, true),
    ("\\stackrel{@}{x}", "mover", 1, true, true),
    ("\\underbrace{@}", "munder", 0, false, false),
    ("\\underbrace{x}_{@}", "munder", 1, true, true),
    ("\\overline{@}", "mover", 0, false, false),
    ("\\hat{@}", "mover", 0, false, false),
    ("\\binom{@}{2}", "mfrac", 0, true, false),
    ("\\tbinom{@}{2}", "mfrac", 0, true, true),
    ("\\lim\\limits_{@}", "munder", 1, true, true),
    ("\\sum\\limits_{@}", "munder", 1, true, true),
    ("\\displaystyle @", "math", -1, false, false),
    ("\\textstyle @", "math", -1, false, false),
    ("\\scriptstyle @", "math", -1, true, true),
    ("\\scriptscriptstyle @", "math", -1, true, true),
    ("x^{\\displaystyle @}", "msup", 1, false, false),
    ("x_{\\frac{@}{2}}", "mfrac", 0, true, true),
    ("x_{\\dfrac{@}{2}}", "mfrac", 0, false, false),
    ("x_{\\sqrt{@}}", "msqrt", -1, true, true),
    ("x_{y^{@}}", "msup", 1, true, true),
    ("\\sqrt{\\frac{@}{2}}", "mfrac", 0, true, false),
    ("\\frac{\\frac{@}{2}}{2}", "mfrac:1", 0, true, true),
    ("\\displaystyle\\frac{@}{2}", "mfrac", 0, false, false),
    ("\\textstyle\\frac{@}{2}", "mfrac", 0, true, true),
    ("\\begin{matrix}\\frac{@}{2}\\end{matrix}", "mfrac", 0, true, true),
    ("\\begin{dcases}\\frac{@}{2}\\end{dcases}", "mfrac", 0, false, false),
    ("\\begin{aligned}\\frac{@}{2}\\end{aligned}", "mfrac", 0, false, false),
    ("\\displaystyle{@\\over x}", "mfrac", 0, false, false),
    ("\\displaystyle{@\\choose x}", "mfrac", 0, false, false),
    ("{x\\atop @}", "mfrac", 1, true, false),
    ("{x\\over @}", "mfrac", 1, true, false),
    ("{x\\choose @}", "mfrac", 1, true, false),
    ("{x\\brack @}", "mfrac", 1, true, false),
    ("{x\\brace @}", "mfrac", 1, true, false),
    ("{x+1\\atop @}", "mfrac", 1, true, false),
    ("\\sqrt[n+1]{@}", "mroot", 0, false, false),
    ("\\sqrt[]{@}", "mroot", 0, false, false),
    ("\\frac{\\sqrt[n\\quad1]{@}}2", "mroot", 0, true, false),
    ("\\begin{matrix}x\\over y\\\\@\\end{matrix}", "mtd:1", -1, false, false),
    ("\\begin{aligned}x\\choose y\\\\@\\end{aligned}", "mtd:1", -1, false, false),
    ("\\begin{matrix}\\scriptstyle x\\\\@\\end{matrix}", "mtd:1", -1, false, false),
    ("\\begin{gather}x\\tag{1}\\\\\\tag{2}\\label{b}@\\notag\\end{gather}", "mtd:4", -1, false, false),
    ("\\begin{multline}x\\\\\\tag*{a}@\\\\y\\end{multline}", "mtd:4", -1, false, false),
    ("\\prescript{@}{x}{y}", "mmultiscripts", 3, true, true),
    ("\\mathchoice{@}{@}{z}{z}", "math", -1, false, false),
    ("\\phantom{@}", "mphantom", -1, false, false),
    ("\\overset{a}{@}", "mover", 0, false, false),
    ("\\underset{a}{@}", "munder", 0, false, false),
    ("\\stackrel{a}{@}", "mover", 0, false, false),
    ("\\overset{a}{\\underbrace{@}}", "munder", 0, false, false),
    ("\\overset{a}{\\sqrt{@}}", "msqrt", -1, false, false),
    ("\\overbrace{@}^a", "mover:1", 0, false, false),
    ("\\widehat{@}", "mover", 0, false, false),
    ("\\underline{@}", "munder", 0, false, false),
    ("\\cancel{@}", "menclose", -1, false, false),
    ("\\boxed{@}", "menclose", -1, false, false),
    ("\\begin{array}{c|c}x&x\\\\@&x\\end{array}", "mtd:2", -1, false, false),
    ("\\begin{array}{r}@\\\\x\\end{array}", "mtd", -1, false, false),
    ("\\begin{pmatrix}x\\\\@\\end{pmatrix}", "mtd:1", -1, false, false),
    ("\\genfrac{}{}{}{}{@}{2}", "mfrac", 0, true, false),
    ("\\genfrac(]{0pt}{}{2}{@}", "mfrac", 1, true, false),
    ("\\genfrac{}{}{}{0}{@}{2}", "mfrac", 0, false, false),
    ("\\genfrac{}{}{}{1}{@}{2}", "mfrac", 0, true, true),
    ("\\frac{\\genfrac{}{}{}{}{@}{2}}{2}", "mfrac:1", 0, true, true),
    ("\\cramped{@}", "mrow", 0, false, false),
    ("\\cramped[\\scriptstyle]{@}", "mrow", 0, true, true),
    ("x^{\\cramped[\\textstyle]{@}}", "mrow", 0, false, false),
    ("x^{\\cramped{@}}", "mrow", 0, true, true),
    ("\\xrightarrow{@}", "mrow:1", 1, true, true),
    ("\\sideset{_{@}}{}\\sum", "mmultiscripts", 4, true, true),
    ("{\\color{red}@}", "mrow", -1, false, false),
    ("x\\textcolor{red}{@}", "mrow", -1, false, false),
    ("x_{\\color{red}@}", "mrow", -1, true, true),
    ("\\begin{array}{c}\\scriptstyle @\\end{array}", "mtd", -1, true, true),
];

/// Rows that hold more than the sequence: how many boxes come before and after it, the spaces at
/// the joints, and the atom it follows as far as the spacing is concerned.
type More = (&'static str, &'static str, i32, usize, usize, i32, i32, Option<K>, bool, bool);
#[rustfmt::skip]
const MORE: &[More] = &[
    ("\\left(@\\right)", "mrow", -1, 1, 1, 0, 0, None, false, false),
    ("\\left.@\\right]", "mrow", -1, 0, 1, 0, 0, None, false, false),
    ("x\\left.@\\right.", "mrow", -1, 0, 0, 0, 0, None, false, false),
    ("x=\\left.@\\right)y", "mrow", -1, 0, 1, 0, 0, None, false, false),
    ("\\left\\{x\\middle|@\\right.", "mrow", -1, 3, 0, 0, 0, None, false, false),
    ("\\left(x\\middle/@\\middle\\|y\\right\\rangle ", "mrow", -1, 3, 3, 0, 0, None, false, false),
    ("\\frac{\\left[@\\right)}2", "mrow", -1, 1, 1, 0, 0, None, true, false),
    ("x_{\\left[@\\right)}", "mrow", -1, 1, 1, 0, 0, None, true, true),
    ("\\set{@}", "math", -1, 1, 1, 3, 3, None, false, false),
    ("\\set{x|@}", "math", -1, 3, 1, 5, 3, None, false, false),
    ("\\Set{@}", "mrow", -1, 1, 1, 4, 4, None, false, false),
    ("\\Set{x|@}", "mrow", -1, 3, 1, 5, 4, None, false, false),
    ("\\bra{@}", "math", -1, 1, 1, 0, 0, None, false, false),
    ("\\ket{@}", "math", -1, 1, 1, 0, 0, None, false, false),
    ("\\Bra{@}", "mrow", -1, 1, 1, 0, 0, None, false, false),
    ("\\Ket{@}", "mrow", -1, 1, 1, 0, 0, None, false, false),
    ("\\braket{@}", "math", -1, 1, 1, 0, 0, None, false, false),
    ("\\braket{x|@}", "math", -1, 3, 1, 0, 0, Some(Ord), false, false),
    ("\\Braket{x|@}", "mrow", -1, 3, 1, 3, 0, None, false, false),
    ("\\pod{@}", "math", -1, 1, 1, 0, 0, None, false, false),
    ("\\begin{matrix}x&@\\end{matrix}", "mtd:1", -1, 0, 0, 0, 0, Some(Ord), false, false),
    ("\\begin{array}{cc}x&y&@\\end{array}", "mtd:2", -1, 0, 0, 0, 0, Some(Ord), false, false),
    ("\\begin{align*}x&@\\end{align*}", "mtd:2", -1, 0, 0, 0, 0, Some(Ord), false, false),
];

const PRE: &str = "\\newcommand\\Id[1]{#1}\\newcommand\\M{}\\def\\M#1{#1}";

pub(super) fn find(e: &El, name: &str) -> Option<El> {
    let (name, nth) = name.split_once(':').map_or((name, 0), |(n, k)| (n, k.parse().unwrap()));
    let mut v = e.find_all(name);
    if e.name == name {
        v.insert(0, e);
    }
    v.get(nth).map(|e| (*e).clone())
}

fn c30(s: &mut Src, r: &mut Rec) -> Res {
    if s.below(10_000) == 0 {
        // The generator leaves this out.
        let f = "a\\color{red}+b";
        r.input = f.into();
        let m = match LatexToMathML::default().convert_with_local_state(f, MathDisplay::Block) {
            Ok(m) => m.mathml,
            Err(e) => return fail("refused", e.error_message()),
        };
        let mut items = vec![];
        if let Err(e) = flatten(&parse(&m)?, false, &mut items) {
            return fail("unknown length", e);
        }
        let (_, g) = gaps(&items);
        return if g == [0, 4, 4, 0] { Ok(()) } else { fail("sign behind a switch", format!("{f}\n{g:?}\n{m}")) };
    }
    let (tpl, name, idx, lead, trail, lead_space, trail_space, start, inline, block) = if s.chance(1, 4) {
        s.pick(MORE)
    } else {
        let (tpl, name, idx, inline, block) = s.pick(WRAPS);
        (tpl, name, idx, 0, 0, 0, 0, None, inline, block)
    };
    let disp = crate::cfg::disp(s);
    let script = if disp == MathDisplay::Inline { inline } else { block };
    let mut defs = vec![];
    let (t, want, ks) = seq(s, script, start, (trail > 0 || tpl.ends_with("\\right.")).then_some(Close), 2, 7, &mut defs);
    if tpl.to_lowercase().contains("set{") || tpl.to_lowercase().contains("ket{x|") {
        let all = format!("{t}{}", defs.concat());
        if ["|", "vert", "∣", "Vert"].iter().any(|x| all.contains(x)) {
            r.label("skipped: another vertical line");
            return Ok(());
        }
    }
    if tpl.contains("x&") && ks[0] == Bin || tpl.contains("y&") && ks[0] == Bin {
        r.label("skipped: cell begins with a sign");
        return Ok(());
    }
    let f = format!("{PRE}{}{}", defs.concat(), tpl.replace('@', &t));
    r.input = f.clone();
    r.label(if script { "script style" } else { "text style" });
    let m = match LatexToMathML::default().convert_with_local_state(&f, disp) {
        Ok(m) => m.mathml,
        Err(e) => return fail(format!("refused: {}", crate::engine::norm(&e.error_message())), f),
    };
    let root = parse(&m)?;
    let Some(mut row) = find(&root, name) else { return fail("the construct is missing", format!("{f}\n{m}")) };
    let mut own_row = true;
    if idx >= 0 {
        let k: Vec<&El> = row.els().collect();
        let Some(x) = k.get(idx as usize) else { return fail("the construct is missing", format!("{f}\n{m}")) };
        let x = (*x).clone();
        if x.name == "mrow" && x.attrs.is_empty() {
            row = x;
        } else {
            own_row = false;
            row = El { name: "mrow".into(), attrs: vec![], kids: vec![crate::xml::Node::El(x)] };
        }
    }
    if name != "math" && name != "mtd" && row.els().count() == 1 {
        own_row = false;
    }
    if ks.len() == 1 && ["\\overset{a}", "\\underset{a}", "\\stackrel{a}"].iter().any(|t| tpl.starts_with(t)) {
        // A single atom under a stack keeps its spacing to the right.
        own_row = false;
    }
    let mut both = vec![];
    // Whether an empty group or text counts as something before an operator is for the browser to say.
    let readings: &[bool] = if [&t, &defs.concat()].iter().any(|t| t.contains("{}") || t.contains("\\text{")) { &[false] } else { &[false, true] };
    for &strict in readings {
        let mut items = vec![];
        if let Err(e) = flatten(&row, strict, &mut items) {
            return fail("unknown length", format!("{f}\n{e}\n{m}"));
        }
        both.push(gaps(&items));
    }
    if both[0] != both[both.len() - 1] {
        // What is first and last in a row with spaces is read in two ways.
        r.label("depends on the reading");
    }
    r.nontrivial = ks.len() > 1;
    for (names, g) in &both {
        if g.len() != want.len() + lead + trail {
            return fail("other boxes", format!("{f}\n{names:?}\nexpected {} boxes\n{}", want.len() - 1, root.show()));
        }
        let n = want.len();
        let g = &g[lead..lead + n];
        let names = &names[lead..lead + n - 1];
        for i in 0..n {
            // Nothing is set around a single element that has no row of its own.
            if !own_row && (i == 0 || i == n - 1) {
                continue;
            }
            let more = if i == 0 { lead_space } else { 0 } + if i == n - 1 { trail_space } else { 0 };
            let want = want[i] + more;
            if g[i] != want {
                let at = |i: usize| names.get(i).cloned().unwrap_or_default();
                return fail(
                    "wrong space",
                    format!(
                        "{f}\nclasses {ks:?}\nspace {} between {:?} and {:?} is {}/18 em, expected {}/18 em\n{}",
                        i, if i == 0 { String::new() } else { at(i - 1) }, at(i), g[i], want, root.show()
                    ),
                );
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "two atoms or more",
        quick: 2_000_000,
        thorough: 60_000_000,
        enumerate: 1,
        run: c30,
        assumptions: &[
            "The classes of characters are those of unicode-math (docs/unicode-math-table.html); about eighty characters that the project treats otherwise on purpose are left out.",
            "Looking ahead for the class of the next atom stops at scripts, stacks (\\overset) and macro arguments; operators are followed by ordinary atoms there. An operator given as an argument without braces is not covered.",
            "\\cdots before a demoted sign or another \\cdots, the second columns of tables, \\left...\\right as an inner atom, and numerators of \\over in inline formulas are not covered: the tests pin them or the style is not known in time.",
            "The spaces a browser puts around an operator are those of MathML Core's operator dictionary.",
        ],
    }]
}
