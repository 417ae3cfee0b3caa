//! C18: text mode.

use super::*;
use crate::cfg::{self, Cfg};
use crate::engine::{Rec, Src};
use crate::xml::Node;

/// Command, and how its style shows.
const STYLES: &[(&str, &str)] = &[
    ("text", ""),
    ("textbf", "b"),
    ("textit", "i"),
    ("emph", "em"),
    ("texttt", "code"),
    ("textsc", "small-caps"),
    ("textsf", "sans-serif"),
    ("textrm", "serif"),
    ("underbar", "u"),
];
const SIZES: &[(&str, &str)] = &[
    ("tiny", "50%"),
    ("sixptsize", "60%"),
    ("scriptsize", "70%"),
    ("footnotesize", "80%"),
    ("small", "90%"),
    ("normalsize", "100%"),
    ("large", "120%"),
    ("Large", "140%"),
    ("LARGE", "170%"),
    ("huge", "200%"),
    ("Huge", "250%"),
];
const SYMBOLS: &[(&str, char)] = &[
    ("%", '%'),
    ("$", '$'),
    ("#", '#'),
    ("&", '&'),
    ("_", '_'),
    ("{", '{'),
    ("}", '}'),
    (",", '\u{2009}'),
    (":", '\u{205f}'),
    (">", '\u{205f}'),
    (";", '\u{2004}'),
];
const WORDS: &[(&str, char)] = &[
    ("ss", 'ß'),
    ("aa", 'å'),
    ("AA", 'Å'),
    ("ae", 'æ'),
    ("AE", 'Æ'),
    ("oe", 'œ'),
    ("OE", 'Œ'),
    ("o", 'ø'),
    ("O", 'Ø'),
    ("l", 'ł'),
    ("L", 'Ł'),
    ("i", 'ı'),
    ("j", 'ȷ'),
    ("P", '¶'),
    ("S", '§'),
    ("dag", '†'),
    ("ddag", '‡'),
    ("dots", '…'),
    ("ldots", '…'),
    ("degree", '°'),
    ("yen", '¥'),
    ("checkmark", '✓'),
    ("lq", '‘'),
    ("rq", '’'),
    ("quad", '\u{2003}'),
    ("enspace", '\u{2002}'),
    ("thinspace", '\u{2009}'),
    ("medspace", '\u{205f}'),
    ("thickspace", '\u{2004}'),
    ("nobreakspace", '\u{a0}'),
    ("space", '\u{a0}'),
    ("textasciicircum", 'ˆ'),
    ("textasciitilde", '˜'),
    ("textbackslash", '\\'),
    ("textbar", '|'),
    ("textbraceleft", '{'),
    ("textbraceright", '}'),
    ("textdagger", '†'),
    ("textdollar", '$'),
    ("textellipsis", '…'),
    ("textemdash", '—'),
    ("textendash", '–'),
    ("textgreater", '>'),
    ("textless", '<'),
    ("textquotedblleft", '“'),
    ("textquotedblright", '”'),
    ("textquoteleft", '‘'),
    ("textquoteright", '’'),
    ("textregistered", '®'),
    ("textsterling", '£'),
    ("textunderscore", '_'),
    ("textyen", '¥'),
    ("textbardbl", '‖'),
    ("textdaggerdbl", '‡'),
    ("textdegree", '°'),
    ("circledR", 'Ⓡ'),
    ("maltese", '✠'),
    ("sect", '§'),
];
const ACCENTS: &[(&str, char)] = &[
    ("'", '\u{301}'),
    ("`", '\u{300}'),
    ("^", '\u{302}'),
    ("\"", '\u{308}'),
    ("~", '\u{303}'),
    ("=", '\u{304}'),
    (".", '\u{307}'),
    ("u", '\u{306}'),
    ("v", '\u{30c}'),
    ("H", '\u{30b}'),
    ("r", '\u{30a}'),
    ("c", '\u{327}'),
];
/// Characters that stand for themselves or for a typographic form.
const CHARS: &str = "aZkq09.,:;!?()[]+-=/*|@<>'`\"éßж中😀∑→≤αΩ∞…–—“”‘’«»¿ªµ×÷√ⅣﬁⅫ½℃𝔄ℝ\u{a0}\u{2003}\u{200b}\u{200d}\u{feff}";

fn shown(c: char) -> char {
    match c {
        '\'' => '’',
        '`' => '‘',
        '"' => '”',
        '~' | ' ' | '\n' | '\t' | '\r' | '\u{c}' => '\u{a0}',
        c => c,
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "the text has at least two kinds of content (characters, spaces, symbols, accents, nested commands, sizes, macros), or is a single character tried exhaustively",
        quick: 17 * 4096 + 200_000,
        thorough: 17 * 65536 + 4_000_000,
        enumerate: 17 * 4096,
        run: c18,
        assumptions: &[
            "in text mode ' and ` and \" show as the typographic quotes, and spaces as no-break spaces",
            "an accent is followed by a letter, a braced letter or another accent",
            "of nested styles the innermost shows, and possibly enclosing ones with it; emphasis within emphasis shows as none; \\text in a style is not compared",
        ],
    }]
}

#[derive(Clone, Debug)]
struct Ch {
    c: char,
    styles: Vec<&'static str>,
    /// What shows is unspecified.
    free: bool,
    size: Option<&'static str>,
}

#[derive(Clone)]
struct Env {
    styles: Vec<&'static str>,
    free: bool,
}

struct T<'a> {
    s: &'a mut Src,
    src: String,
    pre: String,
    out: Vec<Ch>,
    macros: usize,
    /// White space here would be skipped.
    swallow: bool,
    /// White space here would be part of the white space before.
    joined: bool,
    budget: i32,
    kinds: u32,
}

impl T<'_> {
    fn emit(&mut self, c: char, e: &Env, size: Option<&'static str>) {
        self.out.push(Ch { c, styles: e.styles.clone(), free: e.free, size });
    }
    /// Append source text that is no white space.
    fn put(&mut self, t: &str) {
        let word = self.swallow && self.src.chars().next_back().is_some_and(|c| c.is_ascii_alphabetic() || c == '\\');
        if word && t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '*') {
            self.src.push(' ');
        }
        self.src.push_str(t);
        self.swallow = false;
        self.joined = false;
    }
    fn word(&mut self, name: &str) {
        self.put(&format!("\\{name}"));
        self.swallow = true;
        if self.s.chance(1, 3) {
            self.put("{}");
        }
    }
    fn group(&mut self, e: &Env, size: Option<&'static str>, d: u32) {
        self.put("{");
        self.seq(e, size, d);
        self.put("}");
    }
    /// An argument without braces.
    fn single(&mut self, e: &Env, size: Option<&'static str>) {
        match self.s.weighted(&[6, 2, 2, 1]) {
            0 => {
                let c = crate::r#gen::letter(self.s);
                self.put(&c.to_string());
                self.emit(c, e, size);
            }
            1 => {
                let (n, c) = self.s.pick(SYMBOLS);
                self.put(&format!("\\{n}"));
                self.emit(c, e, size);
            }
            2 => {
                let (n, c) = self.s.pick(WORDS);
                self.emit(c, e, size);
                self.put(&format!("\\{n}"));
                self.swallow = true;
            }
            _ => {
                let c = *self.s.pick_ref(&['.', '1', '-', ']', '[', '!', '/']);
                self.put(&c.to_string());
                self.emit(c, e, size);
            }
        }
    }
    fn seq(&mut self, e: &Env, size: Option<&'static str>, d: u32) -> Option<&'static str> {
        let mut size = size;
        for _ in 0..self.s.long(0, 5) {
            size = self.item(e, size, d);
        }
        size
    }
    /// The text is the body of a macro, which mentions an argument.
    fn through_macro(&mut self, cmd: &str, e: &Env) {
        let name = format!("q{}", char::from(b'a' + self.macros as u8));
        self.macros += 1;
        let saved = std::mem::take(&mut self.src);
        (self.swallow, self.joined) = (false, false);
        self.put(&format!("\\{cmd}{{"));
        let size = self.seq(e, None, 3);
        self.put("#1");
        let body = std::mem::take(&mut self.src);
        (self.swallow, self.joined) = (false, false);
        // Not blank, which the macro tests look at.
        let c = crate::r#gen::letter(self.s);
        self.put(&c.to_string());
        self.emit(c, e, size);
        let size = self.seq(e, size, 3);
        let call = std::mem::replace(&mut self.src, body);
        (self.swallow, self.joined) = (false, false);
        self.seq(e, size, 3);
        self.put("}");
        let body = std::mem::replace(&mut self.src, saved);
        self.pre.push_str(&format!("\\newcommand\\{name}[1]{{{body}}}"));
        (self.swallow, self.joined) = (self.src.ends_with(|c: char| c.is_ascii_alphabetic()), false);
        self.put(&format!("\\{name}{{{call}}}"));
    }
    fn item(&mut self, e: &Env, mut size: Option<&'static str>, d: u32) -> Option<&'static str> {
        self.budget -= 1;
        let k = if self.budget < 0 { 0 } else { self.s.weighted(&[10, 4, 3, 3, 3, 4, 2, 2, 1, 1]) };
        self.kinds |= 1 << k;
        match k {
            1 => {
                // White space. (Whether it is skipped behind \\, and the like is not specified.)
                if ["\\,", "\\:", "\\;", "\\>"].iter().any(|t| self.src.ends_with(t)) {
                    self.put("{}");
                }
                let t = self.s.pick(&[" ", "  ", "\n", "\t", " \t ", "\r\n", "\n\n", "\u{c}"]);
                if !self.swallow && !self.joined {
                    self.emit('\u{a0}', e, size);
                    self.joined = true;
                }
                self.src.push_str(t);
            }
            2 => {
                let (n, c) = self.s.pick(SYMBOLS);
                self.put(&format!("\\{n}"));
                self.emit(c, e, size);
            }
            3 => {
                let (n, c) = self.s.pick(WORDS);
                self.emit(c, e, size);
                self.word(n);
            }
            4 => {
                // One or more accents on a letter.
                let mut acc = Vec::new();
                let mut close = 0;
                for _ in 0..self.s.len(1, 3) {
                    let (n, a) = self.s.pick(ACCENTS);
                    acc.push(a);
                    self.put(&format!("\\{n}"));
                    self.swallow = n.chars().all(|c| c.is_ascii_alphabetic());
                    if self.s.flip() {
                        self.put("{");
                        close += 1;
                    }
                }
                if self.s.chance(1, 4) {
                    let (n, c) = self.s.pick(&[("i", 'ı'), ("j", 'ȷ'), ("ae", 'æ'), ("aa", 'å')]);
                    self.emit(c, e, size);
                    self.put(&format!("\\{n}"));
                    self.swallow = true;
                } else {
                    let c = crate::r#gen::letter(self.s);
                    self.put(&c.to_string());
                    self.emit(c, e, size);
                }
                for a in acc.iter().rev() {
                    self.emit(*a, e, size);
                }
                for _ in 0..close {
                    self.put("}");
                }
            }
            5 if d > 0 => {
                let (n, st) = if self.s.chance(1, 9) { ("sout", "s") } else { self.s.pick(STYLES) };
                self.put(&format!("\\{n}"));
                self.swallow = true;
                let mut e = e.clone();
                if st.is_empty() {
                    e.free |= !e.styles.is_empty();
                } else {
                    e.styles.push(st);
                }
                if self.s.chance(1, 5) {
                    self.single(&e, size);
                } else {
                    self.group(&e, size, d - 1);
                }
            }
            6 if d > 0 => self.group(e, size, d - 1),
            7 => {
                let (n, v) = self.s.pick(SIZES);
                self.word(n);
                size = Some(v);
            }
            8 => {
                // A comment, which ends the line and skips the space at the beginning of the next.
                self.put("%");
                let t = self.s.pick(&["", "x", " {", "\\y $"]);
                self.src.push_str(t);
                self.src.push('\n');
                self.swallow = true;
            }
            9 => {
                // `~` and `\ `: the latter skips the space behind it.
                if self.s.flip() {
                    self.put("~");
                } else {
                    self.put("\\ ");
                    self.swallow = true;
                }
                self.emit('\u{a0}', e, size);
            }
            _ => {
                let cs: Vec<char> = CHARS.chars().collect();
                let c = self.s.pick(&cs);
                self.put(&c.to_string());
                self.emit(shown(c), e, size);
            }
        }
        size
    }
}

/// What may stand in the argument of \\operatorname, and what shows.
const NAME: &[(&str, &str)] = &[
    ("-", "−"), (".", "."), ("/", "/"), ("\\alpha ", "α"), ("\\Gamma ", "Γ"), ("\\sin ", "sin"), ("\\lim ", "lim"), ("'", "′"), (":", ":"),
    ("(", "("), (")", ")"), ("[", "["), ("]", "]"), (",", ","), ("!", "!"), ("+", "+"), ("=", "="), ("|", "|"), ("\\%", "%"), ("\\_", "_"), ("\\{", "{"),
    ("\\}", "}"), ("\\quad ", "\u{2003}"), ("\\,", "\u{2009}"), ("\\:", "\u{205f}"), ("\\;", "\u{2004}"), ("\\!", ""), ("\\ ", "\u{a0}"), ("~", "\u{a0}"),
    ("\\text{k l}", "k\u{a0}l"), ("\\text{k-l}", "k-l"), ("\\textbf {a \\text{b c}}", "a\u{a0}b\u{a0}c"), ("\\raisebox{1pt}{a b}", "a\u{a0}b"), ("\\text{*}", "*"), ("\\infty ", "∞"), ("\\hbar ", "ℏ"), ("\\S ", "§"), ("é", "é"), ("中", "中"), (" ", ""), ("{}", ""), ("\\#", "#"), ("\\&", "&"), ("\\negthinspace ", ""),
    ("<", "<"), (">", ">"), ("\\le ", "≤"), ("′", "′"), ("″", "″"), ("‴", "‴"), ("⁗", "⁗"), ("‵", "‵"), ("‶", "‶"), ("‷", "‷"),
];

/// The name of an operator.
fn name(s: &mut Src, r: &mut Rec, d: MathDisplay) -> Res {
    fn seq(s: &mut Src, depth: u32, t: &mut String, w: &mut String) {
        for _ in 0..s.long(0, 5) {
            match s.weighted(&[4, 1, 5, if depth > 0 { 2 } else { 0 }]) {
                0 => {
                    let c = crate::r#gen::letter(s);
                    t.push(c);
                    w.push(c);
                }
                1 => {
                    let c = char::from(b'0' + s.below(10) as u8);
                    t.push(c);
                    w.push(c);
                }
                2 => {
                    let (a, b) = *s.pick_ref(NAME);
                    *t += a;
                    *w += b;
                }
                _ => {
                    t.push('{');
                    seq(s, depth - 1, t, w);
                    t.push('}');
                }
            }
        }
    }
    let (mut t, mut w) = (String::new(), String::new());
    seq(s, 3, &mut t, &mut w);
    let star = s.chance(1, 3);
    // An empty name is not decided.
    t.push('z');
    w.push('z');
    let src = format!("\\operatorname{}{{{t}}}", if star { "*" } else { "" });
    r.input = src.clone();
    r.label("operator name");
    r.nontrivial = w.chars().count() > 2;
    let m = match Cfg::default().build().convert_with_local_state(&src, d) {
        Ok(m) => m.mathml,
        Err(e) => return fail("a name is rejected", format!("{src}: {}", e.error_message())),
    };
    let e = parse(&m)?;
    let mut v = vec![];
    e.walk(&mut |x| {
        if x.name == "mo" || x.name == "mi" || x.name == "mtext" {
            v.push((x.name.clone(), x.text()));
        }
    });
    let hyphen = |t: &str| t.replace('-', "−");
    match v.as_slice() {
        [(_, t)] if hyphen(t) == hyphen(&w) => Ok(()),
        _ => fail("another name", format!("{src}: expected {w:?}, got {v:?}\n{m}")),
    }
}

fn read(e: &El, size: Option<&str>, tags: &mut Vec<String>, out: &mut Vec<(char, Vec<String>, Option<String>)>) {
    let mut own: Option<String> = size.map(Into::into);
    if let Some(st) = e.attr("style")
        && let Some(x) = st.split("font-size:").nth(1)
    {
        own = Some(x.trim_end_matches(';').trim().into());
    }
    let tag = match e.name.as_str() {
        "mtext" | "mrow" | "math" => None,
        "span" => {
            let st = format!("{} {}", e.attr("style").unwrap_or(""), e.attr("class").unwrap_or(""));
            Some(
                if st.contains("small-caps") {
                    "small-caps"
                } else if st.contains("sans-serif") {
                    "sans-serif"
                } else if st.contains("serif") {
                    "serif"
                } else {
                    "span"
                }
                .to_string(),
            )
        }
        "strong" => Some("b".into()),
        n => Some(n.to_string()),
    };
    if let Some(t) = &tag {
        tags.push(t.clone());
    }
    for k in &e.kids {
        match k {
            Node::El(x) => read(x, own.as_deref(), tags, out),
            Node::Text(t) => out.extend(t.chars().map(|c| (c, tags.clone(), own.clone()))),
        }
    }
    if tag.is_some() {
        tags.pop();
    }
}

fn c18(s: &mut Src, r: &mut Rec) -> Res {
    let i = s.below(1 << 32);
    // Every character in turn; the quick tier takes the first 69 thousand.
    if i < 17 * 65536 && (i < 17 * 4096 || s.flip()) {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        r.input = format!("U+{i:04X}");
        r.label("single character");
        let src = format!("\\text{{a{c}b}}");
        let conv = Cfg::default().build();
        let special = "#$%&\\^_{}\0".contains(c);
        return match conv.convert_with_local_state(&src, MathDisplay::Inline) {
            Err(_) if special => Ok(()),
            Err(e) => fail("a character is rejected in text", e.error_message()),
            Ok(_) if special => fail("a special character is accepted in text", src),
            // A character that XML does not allow is not compared.
            Ok(_) if (c.is_control() && !c.is_ascii_whitespace()) || matches!(c, '\u{fffe}' | '\u{ffff}') => Ok(()),
            Ok(m) => {
                r.nontrivial = true;
                let got = parse(&m.mathml)?.text();
                if got != format!("a{}b", shown(c)) {
                    return fail("a character of a text changes", format!("U+{i:04X}: {got:?}"));
                }
                Ok(())
            }
        };
    }
    let d = cfg::disp(s);
    if s.chance(1, 8) {
        return name(s, r, d);
    }
    let mut c = Cfg::default();
    c.pretty = s.below(3) as u8;
    let mut t = T { s, src: String::new(), pre: String::new(), out: vec![], macros: 0, swallow: false, joined: false, budget: 40, kinds: 0 };
    for _ in 0..t.s.long(1, 2).min(12) {
        let (n, st) = t.s.pick(STYLES);
        let e = Env { styles: if st.is_empty() { vec![] } else { vec![st] }, free: false };
        if t.s.chance(1, 4) {
            t.through_macro(n, &e);
            continue;
        }
        t.put(&format!("\\{n}"));
        t.swallow = true;
        if t.s.chance(1, 10) {
            t.single(&e, None);
        } else {
            t.group(&e, None, 4);
        }
    }
    let src = format!("{}{}", t.pre, t.src);
    let want = t.out;
    r.input = format!("{src:?}");
    r.nontrivial = t.kinds.count_ones() >= 2;
    r.label("composed text");
    let m = match c.build().convert_with_local_state(&src, d) {
        Ok(m) => m,
        Err(e) => return fail("a text is rejected", format!("{src:?}: {}", e.error_message())),
    };
    let e = parse(&m.mathml)?;
    let mut got = Vec::new();
    for x in e.find_all("mtext") {
        read(x, None, &mut vec![], &mut got);
    }
    let a: String = got.iter().map(|g| g.0).collect();
    let b: String = want.iter().map(|w| w.c).collect();
    if a != b {
        return fail("text differs", format!("{src:?}\ngot  {a:?}\nwant {b:?}"));
    }
    for (g, w) in got.iter().zip(&want) {
        let same_size = g.2.as_deref().unwrap_or("100%") == w.size.unwrap_or("100%");
        if !same_size {
            return fail("wrong size of text", format!("{:?} has {:?}, expected {:?}\n{}", w.c, g.2, w.size, m.mathml));
        }
        if w.free {
            continue;
        }
        let em = w.styles.iter().rev().take_while(|t| **t == "em").count();
        let inner_shows = match w.styles.last() {
            None => g.1.is_empty(),
            Some(&"em") if em >= 2 => em % 2 == 1 && g.1.iter().any(|t| t == "em") || em % 2 == 0 && g.1.is_empty(),
            Some(t) => g.1.iter().any(|x| x == t),
        };
        // Bold and italic together are both seen.
        let both = match w.styles[..] {
            ["b", "i"] | ["i", "b"] => ["b", "i"].iter().all(|t| g.1.iter().any(|x| x == t)),
            _ => true,
        };
        if !inner_shows || !both || !g.1.iter().all(|x| w.styles.iter().any(|t| t == x)) {
            return fail("wrong style of text", format!("{:?} has {:?}, expected {:?}\n{}", w.c, g.1, w.styles, m.mathml));
        }
    }
    Ok(())
}
