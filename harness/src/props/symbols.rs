//! C23 (negation) and C24 (Unicode characters against commands).

use super::*;
use crate::cmds;
use crate::engine::{Rec, Src};
use crate::umath::NAMED;
use crate::unidata::NEGATED;
use crate::xml::Node;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// Mathematical characters a formula may contain as they are.
fn math_chars() -> &'static [char] {
    static V: OnceLock<Vec<char>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<char> = "<=>+-*/|:,;.!?()[]abxyzABZ".chars().collect();
        for (a, b) in [
            (0xa1u32, 0xff),
            (0x391, 0x3f6),
            (0x2010, 0x2044),
            (0x2100, 0x214f),
            (0x2190, 0x22ff),
            (0x2300, 0x23ff),
            (0x25a0, 0x25ff),
            (0x2605, 0x2670),
            (0x27c0, 0x27ff),
            (0x2900, 0x2aff),
            (0x2b00, 0x2bff),
            (0x1d400, 0x1d7ff),
        ] {
            v.extend((a..=b).filter_map(char::from_u32));
        }
        v
    })
}

/// Commands that stand for a symbol, as far as the vocabulary knows.
fn symbol_cmds() -> &'static [String] {
    static V: OnceLock<Vec<String>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = Vec::new();
        for l in [
            cmds::RELATION,
            cmds::FORCE_RELATION,
            cmds::BINARY_OP,
            cmds::FORCE_BINARY_OP,
            cmds::ORD,
            cmds::FORCE_ORD,
            cmds::LETTER,
            cmds::OPEN,
            cmds::FORCE_OPEN,
            cmds::CLOSE,
            cmds::FORCE_CLOSE,
            cmds::OP,
            cmds::FORCE_PUNCTUATION,
            cmds::LETTER_TEXT,
            cmds::SYM_TEXT,
        ] {
            v.extend(l.iter().map(|c| format!("\\{c}")));
        }
        v
    })
}

fn conv(t: &str, d: MathDisplay) -> Option<El> {
    let l = LatexToMathML::default();
    let m = l.convert_with_local_state(t, d).ok()?.mathml;
    crate::xml::parse(&m).ok()
}

/// Large operators (their spacing between letters is that of a relation).
fn big_op(t: &str) -> bool {
    let c = t.chars().next().unwrap_or(' ') as u32;
    [(0x220f, 0x2211), (0x222b, 0x2233), (0x22c0, 0x22c3), (0x2a00, 0x2a1e), (0x2afc, 0x2aff), (0x2140, 0x2140)]
        .iter()
        .any(|(a, b)| (*a..=*b).contains(&c))
}

fn base_and_vs(t: &str) -> Option<(char, Option<char>)> {
    let mut i = t.chars();
    let c = i.next()?;
    let v = i.next();
    if i.next().is_some() || v.is_some_and(|v| !('\u{fe00}'..='\u{fe0f}').contains(&v)) {
        return None;
    }
    Some((c, v))
}

/// The character with a slash through it.
fn negated(t: &str, overlay: char) -> Option<String> {
    let (c, v) = base_and_vs(t)?;
    // Negating what is already negated is not specified.
    if NEGATED.iter().any(|(_, n)| *n == c) {
        return None;
    }
    if overlay == '\u{338}' && v.is_none() {
        if let Some((_, n)) = NEGATED.iter().find(|(b, _)| *b == c) {
            return Some(n.to_string());
        }
    }
    let mut s = t.to_string();
    s.push(overlay);
    Some(s)
}

/// Function names, operator names and words in an alphabet.
fn some_name(s: &mut Src) -> String {
    let w = |s: &mut Src| {
        let mut t = s.pick(&["a", "b", "x", "Z", "é", "π", "ℓ", "☺", "1"]).to_string();
        if s.chance(1, 4) {
            t.push(char::from_u32(0xfe00 + s.below(16) as u32).unwrap());
        }
        for _ in 0..s.long(1, 3) {
            t.push_str(s.pick(&["a", "b", "Q", "é", "2", "ϵ", "\u{fe00}", "\u{fe0f}", "中"]));
        }
        t
    };
    match s.below(4) {
        0 => s.pick(&["\\sin", "\\lim", "\\max", "\\Pr", "\\arccos", "\\log", "\\limsup"]).to_string(),
        1 | 2 => {
            let star = s.pick(&["", "*"]);
            format!("\\operatorname{star}{{{}}}", w(s))
        }
        _ => format!("\\{}{{{}}}", s.pick(&["mathrm", "mathbf", "mathsf", "mathtt", "mathit"]), s.pick(&["ab", "xyz", "Q2", "id"])),
    }
}

/// A name with an overlay on its first character (which a variation selector belongs to).
fn negated_name(t: &str, overlay: char) -> Option<String> {
    let mut i = t.char_indices();
    i.next()?;
    let mut at = t.len();
    for (p, c) in i {
        if !('\u{fe00}'..='\u{fe0f}').contains(&c) {
            at = p;
            break;
        }
    }
    let (a, b) = t.split_at(at);
    // A single character is a symbol, and two selectors in a row mean nothing.
    if a.chars().count() > 2 || t.chars().count() < 2 || b.is_empty() {
        return None;
    }
    Some(format!("{a}{overlay}{b}"))
}

/// The elements with exactly this text get the other one, all of them or the k-th.
fn replace(e: &mut El, from: &str, to: &str, only: Option<usize>, n: &mut usize) {
    if e.text() == from && (e.name == "mo" || e.name == "mi" || e.name == "mtext") {
        if only.is_none_or(|k| k == *n) {
            e.kids = vec![Node::Text(to.into())];
            if to.chars().count() == 1 {
                // Whether a character stretches by itself depends on the character.
                e.attrs.retain(|(k, _)| k != "stretchy");
            }
        }
        *n += 1;
        return;
    }
    for k in &mut e.kids {
        if let Node::El(x) = k {
            replace(x, from, to, only, n);
        }
    }
}

fn strip_stretchy(e: &mut El, text: &str) {
    if e.text() == text && e.name == "mo" {
        e.attrs.retain(|(k, _)| k != "stretchy");
    }
    for k in &mut e.kids {
        if let Node::El(x) = k {
            strip_stretchy(x, text);
        }
    }
}

/// `@` is the symbol with the negation, `#` the symbol alone.
const PLACES: &[&str] = &[
    "a@ b",
    "@",
    "a@_2^3 b",
    "a^{@}b",
    "{@}b",
    "a@ # b",
    "a# @ b",
    "\\frac{@ }{2}+x",
    "\\left(a@ b\\right)",
    "\\begin{matrix}a&@ b\\\\c\\end{matrix}",
    "\\overset{!}{@}x",
    "-@ -1",
    "\\sqrt{@}",
    "a=@ =b",
    "\\mathrel{a}@ b",
    "a\\,@ \\,b",
    "x@'",
    "2@ 3",
    "(@ )",
    "\\mathbf{@ }",
    "\\frac{@ }{# }",
    "\\text{x}@ \\text{y}",
    "\\displaystyle @ #",
];

fn c23(s: &mut Src, r: &mut Rec) -> Res {
    let chars = math_chars();
    let cmds = symbol_cmds();
    let all = chars.len() + cmds.len();
    let i = s.below(1 << 32) as usize % all;
    // Names: the first character is the one that gets the slash.
    let name = s.chance(1, 8);
    let sym: String = if name { some_name(s) } else if i < chars.len() { chars[i].to_string() } else { cmds[i - chars.len()].clone() };
    let disp = crate::cfg::disp(s);
    let (cmd, overlay) = s.pick(&[
        ("\\not", '\u{338}'),
        ("\\not", '\u{338}'),
        ("\\not", '\u{338}'),
        ("\\slashed", '\u{338}'),
        ("\\vertoverlay", '\u{20d2}'),
    ]);
    let place = s.pick(PLACES);
    let how = s.below(5);
    r.input = format!("{cmd} {sym} in {place} ({how})");
    let Some(alone) = conv(&sym, disp) else { return Ok(()) };
    // What the symbol looks like: one operator or identifier.
    let k: Vec<&El> = alone.els().collect();
    let [one] = k[..] else { return Ok(()) };
    // (A name may come with an empty space in front.)
    let kids: Vec<&El> = one.els().collect();
    let one = match kids[..] {
        [a, b] if name && one.name == "mrow" && a.name == "mspace" => b,
        _ => one,
    };
    if one.name != "mo" && one.name != "mi" {
        return Ok(());
    }
    let text = one.text();
    let neg = if name {
        let Some(x) = negated_name(&text, overlay) else { return Ok(()) };
        x
    } else {
        let Some(x) = negated(&text, overlay) else { return Ok(()) };
        x
    };
    let pre = match how {
        0 => format!("{cmd}{sym} "),
        1 => format!("{cmd} {sym} "),
        2 => format!("{cmd}\n%c\n {sym} "),
        3 => format!("{cmd}{{{sym}}}"),
        _ => "\\NOT ".into(),
    };
    let def = if how == 4 { format!("\\newcommand\\NOT{{{cmd}{sym}}}") } else { String::new() };
    let relation = one.name == "mo" && !big_op(&text) && {
        // A relation has its space on both sides between operands.
        let m = conv(&format!("\\mathord{{a}}{sym} \\mathord{{b}}"), disp);
        let n = conv("\\mathord{a}=\\mathord{b}", disp);
        match (m, n) {
            (Some(m), Some(mut n)) => {
                let mut k = 0;
                replace(&mut n, "=", &text, None, &mut k);
                let mut m = m;
                strip_stretchy(&mut m, &text);
                m == n
            }
            _ => false,
        }
    };
    let unbraced = if how == 3 { format!("{{{sym}}}") } else { format!("{sym} ") };
    let plain = format!("{def}{}", place.replace('@', &unbraced).replace('#', &format!("{sym} ")));
    // The position of the negated one among the occurrences.
    let nth = place.chars().filter(|c| "@#".contains(*c)).position(|c| c == '@').unwrap();
    let with = format!("{def}{}", place.replace('@', &pre).replace('#', &format!("{sym} ")));
    r.input = with.clone();
    let Some(mut want) = conv(&plain, disp) else { return Ok(()) };
    let l = LatexToMathML::default();
    let got = match l.convert_with_local_state(&with, disp) {
        Ok(x) => x.mathml,
        Err(e) => {
            if relation || base_and_vs(&text).is_some_and(|b| NEGATED.iter().any(|(c, _)| *c == b.0) && one.name == "mo") {
                return fail(format!("a relation cannot be negated: {}", crate::engine::norm(&e.error_message())), with);
            }
            r.label("rejected");
            return Ok(());
        }
    };
    r.nontrivial = true;
    r.label(if relation { "relation" } else { "other symbol" });
    // How often the symbol occurs must be known.
    let mut n = 0;
    replace(&mut want.clone(), &text, &text, None, &mut n);
    let occurs = place.chars().filter(|c| "@#".contains(*c)).count();
    if n != occurs {
        r.label("other occurrences");
        r.nontrivial = false;
        return Ok(());
    }
    let mut k = 0;
    replace(&mut want, &text, &neg, Some(nth), &mut k);
    let got = parse(&got)?;
    let mut g = got.clone();
    if neg.chars().count() == 1 {
        strip_stretchy(&mut g, &neg);
    }
    // A letter with a slash may come with an empty space in front (so that the row is not a
    // single upright or italic letter).
    // (What is in braces is an ordinary symbol: its spacing is not compared.)
    if super::macros::canonical(&g, how != 3) != super::macros::canonical(&want, how != 3) {
        return fail(
            if relation { "wrong negated relation" } else { "wrong negated symbol" },
            format!("{with}\nexpected {}\ngot      {}", want.show(), got.show()),
        );
    }
    Ok(())
}

/// Characters with the commands that stand for them.
fn by_char() -> &'static Vec<(String, Vec<String>)> {
    static V: OnceLock<Vec<(String, Vec<String>)>> = OnceLock::new();
    V.get_or_init(|| {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let mut names: Vec<String> = symbol_cmds().to_vec();
        names.extend(crate::umath::UMATH.iter().map(|u| format!("\\{}", u.1)));
        names.sort();
        names.dedup();
        for c in &names {
            let Some(e) = conv(c, MathDisplay::Inline) else { continue };
            let k: Vec<&El> = e.els().collect();
            let [one] = k[..] else { continue };
            let t = one.text();
            if (one.name != "mo" && one.name != "mi") || base_and_vs(&t).is_none() {
                continue;
            }
            let n = t.chars().next().unwrap();
            if n.is_ascii_alphanumeric() || "#$%&~_^{}\\[]'".contains(n) {
                continue;
            }
            m.entry(t).or_default().push(c.clone());
        }
        m.into_iter().collect()
    })
}

/// Formulas with a place for a symbol.
const SPOTS: &[&str] = &[
    "@", "a@b", "@b", "a@", "a^@", "a_@b", "a^@_@", "@^2", "@_2^3 a", "\\not@", "a\\not@ b", "\\left@a\\right)",
    "\\left(a\\middle@b\\right.", "\\left.a\\right@", "\\big@", "a\\bigl@b", "a\\bigm@b", "\\mathbf{@}", "\\mathbf@",
    "\\mathrm{a@b}", "\\mathcal@", "\\mathfrak{@}", "\\boldsymbol{a@b}", "\\frac@b", "\\sqrt@", "\\sqrt[@]a", "\\hat@",
    "\\overbrace{@}^@", "a@@b", "a=@b", "a@=b", "-@-", "{@}", "(@)", "a,@b", "\\sum_@^@ a", "\\sin@",
    "\\begin{matrix}@&a@b\\\\@\\end{matrix}", "\\mathop{@}_a^b", "\\mathrel{@}", "\\mathbin@", "\\mathord{@}",
    "\\overset@a", "\\overset a@", "\\underset{a}{@}", "a\\limits@", "@\\limits_a^b", "@\\nolimits_a", "@'", "@!", "1@2",
    "\\stackrel{a}{@}", "\\operatorname{a@}", "\\phantom{@}", "\\binom@@", "\\scriptstyle a@b", "\\color{red}@a",
    "\\genfrac@@{0pt}0ab", "\\middle@", "\\underbrace{a}_{@}", "\\left@a\\middle@b\\right@", "a\\over@", "\\pmod@",
    "\\mathbb@", "\\not{@}", "\\sideset{_@}{^@}\\sum", "\\slashed@", "\\;@\\,a", "\\Bigr@", "\\xrightarrow@", "a{}@{}b",
    "\\newcommand\\M{@}a\\M b", "\\newcommand\\M{a@}\\M\\M_2", "\\newcommand\\M[1]{x#1y}a\\M@b", "\\newcommand\\M[1]{\\frac{#1}{#1}}\\M{@}",
    "\\newcommand\\M[2][@]{#1=#2}\\M{@}\\M[a]@", "\\let\\M=@a\\M b", "\\let\\M@\\left\\M a\\right)", "\\def\\M#1@{a#1b}\\M cd@",
    "\\begin{cases}@a&@\\\\b\\end{cases}", "\\begin{align}a&@b\\\\&@\\end{align}", "\\mathchoice@@@@", "\\textcolor{red}{a@b}",
    "\\set{a|@}", "a\\mathbin{@}b", "\\overline@", "\\cancel@", "\\prescript@@{X}", "x'@", "\\cramped{@}", "\\boxed@",
    "\\dots@", "a\\dots@b", "\\lim_{@}", "\\lim@", "\\bm@", "\\mathsf{@@}", "\\displaystyle@a", "\\tfrac@@", "a\\bmod@",
];

/// Characters whose class in unicode-math is not the one of the LaTeX command that shows them (the
/// character follows unicode-math, the command amssymb or amsmath), or that are active (primes,
/// `:` and `.`), and one whose spacing is written out for the command only.
const BY_DESIGN: &str = ".:′‵⟋⟍↺↻∁∴∵▶◀⇠⇢⊝";

fn c24(s: &mut Src, r: &mut Rec) -> Res {
    let t = by_char();
    let n = s.below(1 << 32) as usize;
    // The commands whose character is known from elsewhere.
    if n < NAMED.len() {
        let (name, c) = NAMED[n];
        r.input = format!("\\{name}");
        r.nontrivial = true;
        r.label("named symbol");
        let Some(e) = conv(&r.input, MathDisplay::Inline) else {
            return fail("a symbol command is refused", r.input.clone());
        };
        let t = e.text();
        if t.trim_end_matches(['\u{fe00}', '\u{fe0e}']) != c.trim_end_matches(['\u{fe00}', '\u{fe0e}']) {
            return fail("the command shows another symbol", format!("\\{name} shows {t}, not {c}"));
        }
        return Ok(());
    }
    let n = n - NAMED.len();
    let (ch, cs) = &t[n % t.len()];
    let disp = crate::cfg::disp(s);
    if ch.chars().count() > 1 || BY_DESIGN.contains(ch.as_str()) {
        return Ok(());
    }
    // One formula, or all of the list.
    let (mut places, mut how) = (vec![], "every place");
    if n / t.len() % 16 == 0 {
        places.extend(SPOTS.iter().map(|p| p.to_string()));
    } else {
        how = "nested place";
        let mut f = s.pick(SPOTS).to_string();
        for _ in 0..s.below(3) {
            let g = s.pick(SPOTS);
            if g.contains("\\M") {
                continue;
            }
            let sep = s.pick(&["{}", "()", "  "]);
            let h = format!("{}{f}{}", &sep[..1], &sep[1..]);
            f = if s.flip() { g.replace('@', &h) } else { g.replacen('@', &h, 1) };
            if f.len() > 400 {
                break;
            }
        }
        places.push(f);
    }
    r.label(how);
    let l = LatexToMathML::default();
    let f = |place: &str, x: &str| {
        l.convert_with_local_state(&place.replace('@', x), disp).map(|r| r.mathml).map_err(|e| e.error_message())
    };
    let mut worst = None;
    for c in cs {
        let bad = places.iter().find_map(|p| {
            let (a, b) = (f(p, ch), f(p, &format!("{c} ")));
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => None,
                (Err(_), Err(_)) => None,
                (a, b) => Some((p.clone(), a, b)),
            }
        });
        match bad {
            None => {
                worst = None;
                break;
            }
            Some(b) => worst = Some((c, b)),
        }
    }
    r.input = format!("{ch} against {} in {}", cs.join(" "), if places.len() == 1 { &places[0] } else { "every place" });
    r.nontrivial = f(&places[0], ch).is_ok();
    r.evals = places.len() as u64;
    if let Some((c, (p, a, b))) = worst {
        let sig = if a.is_ok() && b.is_ok() { "the character differs from its command" } else { "one of character and command is refused" };
        return fail(sig, format!("{p} with {ch} and {c}\n{ch} gives {a:?}\n{c} gives {b:?}"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "the symbol can be negated and its occurrences in the output are known",
        quick: 300_000,
        thorough: 20_000_000,
        enumerate: (math_chars().len() + symbol_cmds().len()) as u64,
        run: c23,
        assumptions: &["Symbols other than relations may be refused; where they are accepted they are specified alike."],
    },
    Prop {
        id: "C24",
        rule: "the (first) formula with the character is accepted",
        quick: 400_000,
        thorough: 20_000_000,
        enumerate: by_char().len() as u64 * 3 + NAMED.len() as u64,
        run: c24,
        assumptions: &[
            "Sixteen characters are left out: . : and the primes are active in math, and the others have a different class in unicode-math (which the character follows) and in amssymb (which the command follows).",
            "A character with a variation selector is two characters.",
        ],
    }]
}
