//! C19: math alphabets; C34: scope and nesting of font commands.

use super::*;
use crate::cfg::{self, Cfg};
use crate::cmds;
use crate::engine::{Rec, Src};
use crate::unidata::ALPHANUM;
use crate::xml::Node;
use std::collections::HashMap;
use std::sync::OnceLock;

/// Command, style in the Unicode names, variation selector for capitals.
const FONTS: &[(&str, &str, Option<char>)] = &[
    ("mathbf", "Bold", None),
    ("bold", "Bold", None),
    ("mathbb", "DoubleStruck", None),
    ("Bbb", "DoubleStruck", None),
    ("bm", "BoldItalic", None),
    ("boldsymbol", "BoldItalic", None),
    ("symbf", "BoldItalic", None),
    ("mathfrak", "Fraktur", None),
    ("frak", "Fraktur", None),
    ("mathcal", "Script", Some('\u{fe00}')),
    ("mathscr", "Script", Some('\u{fe01}')),
    ("mathit", "Italic", None),
    ("mathrm", "", None),
    ("mathsf", "Sans", None),
    ("mathtt", "Mono", None),
];
const SWITCHES: &[(&str, &str, Option<char>)] = &[
    ("bf", "Bold", None),
    ("cal", "Script", Some('\u{fe00}')),
    ("it", "Italic", None),
    ("rm", "", None),
    ("sf", "Sans", None),
    ("tt", "Mono", None),
];

/// Letters and digits to try: everything that has a mathematical form, and others that have none.
fn bases() -> &'static Vec<(String, char, bool)> {
    static B: OnceLock<Vec<(String, char, bool)>> = OnceLock::new();
    B.get_or_init(|| {
        let mut v: Vec<(String, char, bool)> = Vec::new();
        let mut cs: Vec<char> = ('0'..='9').chain('a'..='z').chain('A'..='Z').collect();
        cs.extend(('\u{391}'..='\u{3ff}').filter(|c| c.is_alphabetic()));
        cs.extend("éßøÅžıȷжЯאبहかカ中ℏℓℵ℘ℝ∞ªºµÀĀſƒǅ".chars());
        cs.extend(('\u{1d400}'..'\u{1d7ff}').step_by(37));
        v.extend(cs.into_iter().map(|c| (c.to_string(), c, false)));
        // Commands that stand for a letter: what they are is asked from a conversion without font.
        let conv = Cfg::default().build();
        for name in cmds::LETTER.iter().chain(cmds::ORD).chain(cmds::LETTER_TEXT) {
            let Ok(r) = conv.convert_with_local_state(&format!("\\{name}"), MathDisplay::Inline) else { continue };
            let Ok(e) = xml::parse(&r.mathml) else { continue };
            let mi = e.find_all("mi");
            let t = e.text();
            let mut cs = t.chars();
            if mi.len() == 1
                && let (Some(c), None) = (cs.next(), cs.next())
            {
                v.push((format!("\\{name} "), c, mi[0].attr("mathvariant") == Some("normal")));
            }
        }
        v
    })
}

fn map(style: &str, c: char, upright: bool) -> char {
    static M: OnceLock<HashMap<(char, &'static str), char>> = OnceLock::new();
    let m = M.get_or_init(|| ALPHANUM.iter().map(|(b, s, c)| ((*b, *s), *c)).collect());
    let style = match style {
        "" => return c,
        "BoldItalic" if upright => "Bold",
        "Bold" => "Bold",
        "DoubleStruck" => "DoubleStruck",
        "BoldItalic" => "BoldItalic",
        "Fraktur" => "Fraktur",
        "Script" => "Script",
        "Italic" => "Italic",
        "Sans" => "Sans",
        _ => "Mono",
    };
    m.get(&(c, style)).copied().unwrap_or(c)
}

/// What is visible of a character under a font; capitals of the script alphabets are told apart
/// by a variation selector.
fn shown(f: Option<&(&'static str, &'static str, Option<char>)>, c: char, upright: bool) -> String {
    let Some((_, style, vs)) = f else { return c.to_string() };
    let m = map(style, c, upright);
    let mut s = m.to_string();
    if let Some(vs) = vs
        && m != c
        && c.is_ascii_uppercase()
    {
        s.push(*vs);
    }
    s
}

/// Drop variation selectors behind small letters, where Unicode does not define them.
fn plain(t: &str) -> String {
    let mut out = String::new();
    let capital = |c: char| ALPHANUM.iter().any(|(b, s, m)| *m == c && *s == "Script" && b.is_ascii_uppercase());
    for c in t.chars() {
        if ('\u{fe00}'..='\u{fe01}').contains(&c) && !out.chars().last().is_some_and(capital) {
            continue;
        }
        out.push(c);
    }
    out
}

/// The text of the token elements of the given names, in order.
fn tokens_text(e: &El, names: &[&str], out: &mut String) {
    if names.contains(&e.name.as_str()) {
        out.push_str(&e.text());
        return;
    }
    for k in &e.kids {
        if let Node::El(x) = k {
            tokens_text(x, names, out);
        }
    }
}

pub fn props() -> Vec<Prop> {
    let combos = (FONTS.len() + SWITCHES.len()) * bases().len() * 3;
    vec![
        Prop {
            id: "C19",
            rule: "the font has a form of at least one of the characters",
            quick: combos as u64 + 60_000,
            thorough: combos as u64 + 3_000_000,
            enumerate: combos as u64,
            run: c19,
            assumptions: &[
                "the letters a command without font shows, and whether it is upright, are taken from its conversion without font",
                "\\bm, \\boldsymbol and \\symbf give the bold italic alphabet, and bold for upright letters; digits have no bold italic form in Unicode",
            ],
        },
        Prop {
            id: "C34",
            rule: "at least two font commands, one inside the other or one after the other, with letters inside and outside",
            quick: 100_000,
            thorough: 4_000_000,
            enumerate: 0,
            run: c34,
            assumptions: &["the Fraktur I, a known finding of C19, is not drawn", "letters are compared as the text of mi, mn and mtext elements in document order; how they are merged into elements is not compared"],
        },
    ]
}

fn c19(s: &mut Src, r: &mut Rec) -> Res {
    let nf = FONTS.len() + SWITCHES.len();
    let nb = bases().len();
    let i = s.below((nf * nb * 3 * 2) as u64) as usize;
    if i >= nf * nb * 3 {
        return c19_random(s, r);
    }
    let (fi, rest) = (i % nf, i / nf);
    let (b, form) = (&bases()[rest % nb], rest / nb);
    let (font, switch) = if fi < FONTS.len() { (&FONTS[fi], false) } else { (&SWITCHES[fi - FONTS.len()], true) };
    let sym = &b.0;
    let (src, times) = match (switch, form) {
        (false, 0) => (format!("\\{}{{{sym}}}", font.0), 1),
        (false, 1) => (format!("\\{} {sym}", font.0), 1),
        (false, _) => (format!("\\{}{{{sym}{sym}}}", font.0), 2),
        (true, 0) => (format!("{{\\{} {sym}}}", font.0), 1),
        (true, 1) => (format!("\\{} {sym}", font.0), 1),
        (true, _) => (format!("{{\\{} {sym}{sym}}}", font.0), 2),
    };
    r.input = format!("{src:?}");
    r.label("single character");
    let conv = Cfg::default().build();
    let res = match conv.convert_with_local_state(&src, MathDisplay::Inline) {
        Ok(x) => x,
        Err(e) => return fail("a font command on one character is rejected", format!("{src:?}: {}", e.error_message())),
    };
    let e = parse(&res.mathml)?;
    let want = shown(Some(font), b.1, b.2).repeat(times);
    let got = plain(&e.text());
    r.nontrivial = map(font.1, b.1, b.2) != b.1 || font.1.is_empty();
    if got != want {
        return fail(
            format!("wrong character in font {}", font.1),
            format!("{src:?}: got {got:?}, expected {want:?}\n{}", res.mathml),
        );
    }
    if font.1.is_empty() && times == 1 && b.1.is_alphabetic() {
        let mi = e.find_all("mi");
        if mi.len() != 1 || mi[0].attr("mathvariant") != Some("normal") {
            return fail("\\mathrm letter is not upright", format!("{src:?}\n{}", res.mathml));
        }
    }
    Ok(())
}

/// A formula whose letters are known.
struct B<'a> {
    s: &'a mut Src,
    src: String,
    want: String,
    budget: i32,
    fonts: u32,
    mapped: bool,
    max_fonts: u32,
}

type Font = (&'static str, &'static str, Option<char>);

impl B<'_> {
    fn put(&mut self, t: &str) {
        let word = self
            .src
            .rsplit('\\')
            .next()
            .is_some_and(|w| w.len() < self.src.len() && !w.is_empty() && w.bytes().all(|c| c.is_ascii_alphabetic()));
        if word && t.starts_with(|c: char| c.is_ascii_alphabetic()) {
            self.src.push(' ');
        }
        self.src.push_str(t);
    }
    fn letter(&mut self, f: Option<&Font>) {
        let (mut sym, mut c, up) = self.s.pick_ref(bases()).clone();
        if c == 'I' && f.is_some_and(|f| f.1 == "Fraktur") {
            // Known finding of C19, listed there; it would be reported again in every context.
            (sym, c) = ("J".into(), 'J');
        }
        self.put(sym.trim_end());
        let t = shown(f, c, up);
        self.mapped |= f.is_some_and(|f| f.1.is_empty()) || t != c.to_string();
        self.want.push_str(&t);
    }
    fn group(&mut self, f: Option<&Font>, d: u32) {
        self.put("{");
        if self.max_fonts > 0 && self.s.chance(1, 4) {
            self.scoped(f, d);
        } else {
            self.seq(f, d, 1, 3);
        }
        self.put("}");
    }
    fn seq(&mut self, f: Option<&Font>, d: u32, lo: usize, hi: usize) {
        for _ in 0..self.s.long(lo, hi) {
            self.item(f, d);
        }
    }
    fn item(&mut self, f: Option<&Font>, d: u32) {
        self.budget -= 1;
        if d == 0 || self.budget <= 0 {
            return self.letter(f);
        }
        let d = d - 1;
        match self.s.below(16) {
            0..=4 => self.letter(f),
            5 => {
                // Not a letter: no font applies, and it is not compared.
                let t = self.s.pick(&["+", "=", "\\le", ",", "(", ")", "\\sum", "\\sin", "\\to", "!", "\\cdot", "/", "\\quad", "\\lim"]);
                self.put(t);
            }
            6 => {
                self.put("\\frac");
                self.group(f, d);
                self.group(f, d);
            }
            7 => {
                match self.s.below(8) {
                    0..=2 => self.put("\\sqrt"),
                    3..=5 => {
                        // MathML has the degree behind the radicand.
                        let w = std::mem::take(&mut self.want);
                        let before = std::mem::take(&mut self.src);
                        self.scoped(f, d);
                        let t = std::mem::replace(&mut self.src, before);
                        self.put(&if t.contains(']') { format!("\\sqrt[{{{t}}}]") } else { format!("\\sqrt[{t}]") });
                        let degree = std::mem::replace(&mut self.want, w);
                        self.group(f, d);
                        self.want.push_str(&degree);
                        return;
                    }
                    k => {
                        let c = self.s.pick(&["\\overline", "\\underbrace", "\\hat", "\\boxed", "\\mathop", "\\vec", "\\cancel"][..if k == 6 { 5 } else { 7 }]);
                        self.put(c);
                    }
                }
                self.group(f, d);
            }
            8 => {
                self.letter(f);
                self.put("_");
                self.group(f, d);
                if self.s.flip() {
                    self.put("^");
                    self.group(f, d);
                }
            }
            9 => self.group(f, d),
            10 => {
                self.put("\\left(");
                self.scoped(f, d);
                if self.s.chance(1, 3) {
                    self.put("\\right.\\left|");
                    self.seq(f, d, 1, 3);
                }
                self.put("\\right)");
            }
            11 => {
                let env = self.s.pick(&["matrix", "pmatrix", "aligned", "cases"]);
                self.put(&format!("\\begin{{{env}}}"));
                for i in 0..self.s.range(1, 4) {
                    if i > 0 {
                        let t = self.s.pick(&["&", "\\\\"]);
                        self.put(t);
                    }
                    self.scoped(f, d);
                }
                self.put(&format!("\\end{{{env}}}"));
            }
            12 => {
                let c = self.s.pick(&["\\text", "\\textrm"]);
                self.put(c);
                self.put("{");
                for _ in 0..self.s.long(1, 3) {
                    let c = crate::r#gen::letter(self.s);
                    self.src.push(c);
                    self.want.push(c);
                }
                self.put("}");
            }
            13 if self.fonts < self.max_fonts => {
                self.fonts += 1;
                self.put("{");
                self.scoped(f, d);
                self.put("}");
            }
            _ if self.fonts < self.max_fonts => {
                self.fonts += 1;
                let font = self.s.pick(FONTS);
                self.put(&format!("\\{}", font.0));
                if self.s.chance(1, 4) {
                    self.letter(Some(&font));
                } else {
                    self.group(Some(&font), d);
                }
            }
            _ => self.letter(f),
        }
    }
    /// Content that may contain a font switch, which reaches to its end.
    fn scoped(&mut self, f: Option<&Font>, d: u32) {
        self.seq(f, d, 0, 2);
        if self.s.flip() {
            let font = self.s.pick(SWITCHES);
            self.put(&format!("\\{}", font.0));
            self.seq(Some(&font), d, 1, 3);
        }
    }
}

fn compare(b: &B, src: &str, d: MathDisplay, c: &Cfg) -> Res {
    let res = match c.build().convert_with_local_state(src, d) {
        Ok(x) => x,
        Err(e) => return fail("a formula with fonts is rejected", format!("{src:?}: {}", e.error_message())),
    };
    let mut got = String::new();
    tokens_text(&parse(&res.mathml)?, &["mi", "mn", "mtext"], &mut got);
    let got = plain(&got);
    if got != b.want {
        return fail("letters differ from the fonts written", format!("{src:?}\ngot  {got:?}\nwant {:?}\n{}", b.want, res.mathml));
    }
    Ok(())
}

fn c19_random(s: &mut Src, r: &mut Rec) -> Res {
    let d = cfg::disp(s);
    let font = s.pick(FONTS);
    let mut b = B { s, src: String::new(), want: String::new(), budget: 14, fonts: 0, mapped: false, max_fonts: 0 };
    b.put(&format!("\\{}", font.0));
    b.group(Some(&font), 3);
    let src = b.src.clone();
    r.input = format!("{} {src:?}", dshow(d));
    r.nontrivial = b.mapped;
    r.label("expression");
    compare(&b, &src, d, &Cfg::default())
}

fn c34(s: &mut Src, r: &mut Rec) -> Res {
    let d = cfg::disp(s);
    let mut c = Cfg::default();
    if s.chance(1, 4) {
        c = cfg::any(s);
        c.annotation = false;
    }
    let mut b = B { s, src: String::new(), want: String::new(), budget: 30, fonts: 0, mapped: false, max_fonts: 8 };
    b.seq(None, 5, 1, 5);
    let src = b.src.clone();
    r.input = format!("{} {} {src:?}", c.show(), dshow(d));
    r.nontrivial = b.fonts >= 2 && b.mapped;
    compare(&b, &src, d, &c)
}
