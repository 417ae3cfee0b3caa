//! C33 (delimiters stretch exactly when asked to).

use super::*;
use crate::engine::{Rec, Src};
use crate::umath::{DICT, UMATH};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Plain,
    Stretch,
    /// One of the four sizes of `\big` and so on.
    Sized(usize),
    /// Stretchy or not is not said.
    Free,
}
use Kind::*;

/// Whether an operator stretches by default, by MathML Core's operator dictionary.
fn by_dict(t: &str, form: &str) -> bool {
    let mut i = t.chars();
    let c = i.next().unwrap_or(' ') as u32;
    let rest: String = i.collect();
    if !rest.chars().all(|c| c == '\u{338}' || c == '\u{20d2}') {
        return false;
    }
    let find = |form: &str| DICT.iter().find(|d| d.0 <= c && c <= d.1 && d.3 == form).map(|d| "AFGI".contains(d.2));
    if let Some(x) = find(form) {
        return x;
    }
    if form == "infix" && [0x7c, 0x2016, 0x223c].contains(&c) {
        return false;
    }
    ["infix", "postfix", "prefix"].iter().find_map(|f| find(f)).unwrap_or(false)
}

const ROWS: &[&str] = &["mrow", "mstyle", "mphantom", "mpadded", "math", "mtd", "msqrt", "menclose", "merror"];
const SCRIPTS: &[&str] = &["msub", "msup", "msubsup", "munder", "mover", "munderover", "mmultiscripts"];

fn space_like(e: &El) -> bool {
    match e.name.as_str() {
        "mspace" | "mtext" => true,
        "mrow" | "mstyle" | "mphantom" | "mpadded" => e.els().all(space_like),
        _ => false,
    }
}

/// The operators in document order with what they do.
fn read(e: &El, form: &'static str, out: &mut Vec<(String, Result<Kind, String>)>) {
    let n = e.name.as_str();
    if n == "mo" {
        let t = e.text();
        if t.chars().all(|c| ('\u{2061}'..='\u{2064}').contains(&c)) {
            return;
        }
        let f = e.attr("form").unwrap_or(form);
        let stretchy = match e.attr("stretchy") {
            Some(v) => v == "true",
            None => by_dict(&t, f),
        };
        let size = |v: &str| ["1.2em", "1.623em", "2.047em", "2.470em"].iter().position(|x| *x == v);
        let k = match (e.attr("minsize"), e.attr("maxsize")) {
            (None, None) => Ok(if stretchy { Stretch } else { Plain }),
            (Some(a), Some(b)) if a == b && stretchy => size(a).map(Sized).ok_or(format!("size {a}")),
            (a, b) => Err(format!("stretchy {stretchy}, sizes {a:?} and {b:?}")),
        };
        out.push((t, k));
        return;
    }
    let kids: Vec<&El> = e.els().collect();
    let counted: Vec<usize> = (0..kids.len()).filter(|i| !space_like(kids[*i])).collect();
    let core = SCRIPTS.contains(&n) || n == "mfrac";
    for (i, k) in kids.iter().enumerate() {
        let f = if core && i == 0 {
            form
        } else if SCRIPTS.contains(&n) {
            "postfix"
        } else if !ROWS.contains(&n) || counted.len() < 2 {
            // A row around one operator takes its place.
            if ROWS.contains(&n) && counted == [i] && !matches!(n, "math" | "mtd" | "msqrt" | "menclose" | "merror") { form } else { "infix" }
        } else if counted.first() == Some(&i) {
            "prefix"
        } else if counted.last() == Some(&i) {
            "postfix"
        } else {
            "infix"
        };
        read(k, f, out);
    }
}

/// Delimiters as written, and what they are.
#[rustfmt::skip]
const DELIMS: &[(&str, &str)] = &[
    ("(", "("), (")", ")"), ("[", "["), ("]", "]"), ("\\{", "{"), ("\\}", "}"), ("|", "|"), ("\\|", "‖"), ("\\langle ", "⟨"), ("\\rangle ", "⟩"),
    ("\\lfloor ", "⌊"), ("\\rfloor ", "⌋"), ("\\lceil ", "⌈"), ("\\rceil ", "⌉"), ("/", "/"), ("\\backslash ", "\\"),
    ("\\uparrow ", "↑"), ("\\downarrow ", "↓"), ("\\updownarrow ", "↕"), ("\\Uparrow ", "⇑"), ("\\Downarrow ", "⇓"), ("\\Updownarrow ", "⇕"),
    ("\\lvert ", "|"), ("\\rvert ", "|"), ("\\lVert ", "‖"), ("\\rVert ", "‖"), ("\\vert ", "|"), ("\\Vert ", "‖"),
    ("\\lgroup ", "⟮"), ("\\rgroup ", "⟯"), ("\\lmoustache ", "⎰"), ("\\rmoustache ", "⎱"), ("\\lbrace ", "{"), ("\\rbrace ", "}"), ("\\lbrack ", "["), ("\\rbrack ", "]"),
    ("\\lparen ", "("), ("\\rparen ", ")"), ("⟨", "⟨"), ("⟩", "⟩"), ("⌊", "⌊"), ("⌉", "⌉"), ("⟦", "⟦"), ("⟧", "⟧"), ("↑", "↑"), ("⇕", "⇕"), ("‖", "‖"),
    ("⟪", "⟪"), ("⟫", "⟫"),
];

/// Everything that is an operator by itself and converts by itself, with the number of
/// operators it has.
fn plain() -> &'static Vec<(String, usize)> {
    static P: OnceLock<Vec<(String, usize)>> = OnceLock::new();
    P.get_or_init(|| {
        use crate::cmds::*;
        let mut v: Vec<String> = UMATH.iter().map(|u| u.0.to_string()).collect();
        for l in [BINARY_OP, OPEN, CLOSE, RELATION, ORD, FORCE_BINARY_OP, FORCE_CLOSE, FORCE_OPEN, FORCE_ORD, FORCE_PUNCTUATION, FORCE_RELATION, OP] {
            v.extend(l.iter().map(|c| format!("\\{c} ")));
        }
        v.extend(["+", "-", "=", "<", ">", ",", ";", ":", "!", "*", "/", "?", "~", "`", "@", "\"", "."].map(String::from));
        let c = LatexToMathML::default();
        v.into_iter()
            .filter_map(|t| {
                // Between letters, so that nothing can be left out.
                let m = c.convert_with_local_state(&format!("a{t}b"), MathDisplay::Inline).ok()?.mathml;
                let n = m.matches("<mo").count();
                // Primes go into the superscript.
                let k = c.convert_with_local_state(&format!("{t}_{{x}}^{{y}}"), MathDisplay::Inline).ok()?.mathml;
                if k.matches("<mo").count() != n || k.find("<mo") > k.find("<mi>x") || k.find("<mi>x") > k.find("<mi>y") {
                    return None;
                }
                (m.contains("<mi>b</mi>") && n > 0 && !PROBES.contains(&t.trim())).then_some((t, n))
            })
            .collect()
    })
}

/// Left out by the generator, see the known findings.
const PROBES: &[&str] = &["\\smile", "\\frown", "⌢", "⌣"];

struct G<'a> {
    s: &'a mut Src,
    left: i32,
    t: String,
    want: Vec<(String, Kind)>,
    seen: [bool; 3],
}

impl G<'_> {
    fn op(&mut self, t: &str, k: Kind) {
        if t != "." {
            self.want.push((t.into(), k));
        }
    }

    fn seq(&mut self, depth: u32, lo: usize, hi: usize) {
        for _ in 0..self.s.long(lo, hi) {
            self.item(depth);
        }
    }

    fn group(&mut self, depth: u32) {
        self.t += "{";
        self.seq(depth, 0, 3);
        self.t += "}";
    }

    fn delim(&mut self, k: Kind) {
        let (t, c) = self.s.pick(DELIMS);
        self.t += t;
        self.op(c, k);
        self.seen[match k { Plain => 0, Stretch => 1, _ => 2 }] = true;
    }

    /// Something in front of a delimiter that does not change its size: an overlay (which
    /// changes the character), or a class.
    fn prefix(&mut self) -> bool {
        match self.s.below(12) {
            0 => {
                self.t += self.s.pick(&["\\not", "\\slashed", "\\vertoverlay"]);
                true
            }
            1 => {
                self.t += self.s.pick(&["\\mathord", "\\mathbin", "\\mathrel", "\\mathop", "\\mathinner", "\\mathopen", "\\mathclose", "\\mathpunct"]);
                false
            }
            _ => false,
        }
    }

    fn item(&mut self, depth: u32) {
        self.left -= 1;
        if self.left < 0 {
            self.t += "x";
            return;
        }
        if depth == 0 || self.s.chance(1, 2) {
            match self.s.below(6) {
                0 => self.t += "x",
                1 => {
                    let (t, n) = self.s.pick_ref(plain()).clone();
                    self.t += &t;
                    self.want.extend(vec![(String::new(), Plain); n]);
                }
                2 | 3 => {
                    let n = self.want.len();
                    let x = self.prefix();
                    let i = self.s.below(4) as usize;
                    self.t += ["\\big", "\\Big", "\\bigg", "\\Bigg"][i];
                    self.t += self.s.pick(&["", "l", "m", "r"]);
                    self.delim(Sized(i));
                    if x {
                        self.want[n].0.clear();
                    }
                }
                _ => {
                    let n = self.want.len();
                    let x = self.prefix();
                    self.delim(Plain);
                    if x {
                        self.want[n].0.clear();
                    }
                }
            }
            return;
        }
        let d = depth - 1;
        match self.s.below(17) {
            0 | 1 => {
                self.t += "\\left";
                self.edge();
                self.seq(d, 0, 3);
                while self.s.chance(1, 3) {
                    let n = self.want.len();
                    // (A class in front of \middle is not allowed in TeX.)
                    let x = self.s.chance(1, 10);
                    if x {
                        self.t += self.s.pick(&["\\not", "\\slashed", "\\vertoverlay"]);
                    }
                    self.t += "\\middle";
                    self.delim(Stretch);
                    if x {
                        self.want[n].0.clear();
                    }
                    self.seq(d, 0, 2);
                }
                self.t += "\\right";
                self.edge();
            }
            2 => {
                self.group(d);
            }
            3 => {
                self.t += self.s.pick(&["\\frac", "\\dfrac", "\\cfrac"]);
                self.group(d);
                self.group(d);
            }
            4 => {
                self.t += "\\sqrt";
                self.group(d);
            }
            5 | 6 => {
                self.item(0);
                // The order in the output is subscript first.
                let b = self.s.below(3);
                if b != 1 {
                    self.t += "_";
                    self.group(d);
                }
                if b != 0 {
                    self.t += "^";
                    self.group(d);
                }
            }
            7 => {
                let c = self.s.pick(&["\\overset", "\\underset", "\\stackrel"]);
                self.t += c;
                let n = self.want.len();
                self.group(d);
                let over = self.want.split_off(n);
                self.group(d);
                self.want.extend(over);
            }
            8 | 9 => {
                // The accent comes after what it is put on.
                let (c, o, k) = self.s.pick(&[
                    ("\\hat", "ˆ", Plain), ("\\bar", "¯", Plain), ("\\vec", "\u{20d7}", Plain), ("\\dot", "˙", Plain), ("\\ddot", "¨", Plain), ("\\acute", "´", Plain), ("\\grave", "`", Plain),
                    ("\\tilde", "˜", Plain), ("\\check", "ˇ", Plain), ("\\breve", "˘", Plain), ("\\mathring", "˚", Plain), ("\\dddot", "\u{20db}", Plain), ("\\ddddot", "\u{20dc}", Plain),
                    ("\\widehat", "\u{302}", Stretch), ("\\overline", "\u{332}", Stretch), ("\\underline", "\u{332}", Stretch), ("\\overrightarrow", "→", Stretch), ("\\overleftarrow", "←", Stretch),
                    ("\\overleftrightarrow", "↔", Stretch), ("\\underrightarrow", "→", Stretch), ("\\underleftarrow", "←", Stretch), ("\\underleftrightarrow", "↔", Stretch),
                    ("\\Overrightarrow", "⇒", Stretch), ("\\overleftharpoon", "↼", Stretch), ("\\overrightharpoon", "⇀", Stretch), ("\\overgroup", "⏠", Stretch), ("\\undergroup", "⏡", Stretch),
                    ("\\overbrace", "⏞", Stretch), ("\\underbrace", "⏟", Stretch), ("\\overbracket", "⎴", Stretch), ("\\underbracket", "⎵", Stretch), ("\\overparen", "⏜", Stretch), ("\\underparen", "⏝", Stretch),
                    ("\\widetilde", "~", Stretch), ("\\widecheck", "ˇ", Stretch), ("\\utilde", "~", Stretch),
                ]);
                self.t += c;
                self.group(d);
                self.op(o, k);
            }
            10 => {
                let (c, o) = self.s.pick(&[
                    ("\\xrightarrow", "→"), ("\\xleftarrow", "←"), ("\\xleftrightarrow", "↔"), ("\\xRightarrow", "⇒"), ("\\xLeftarrow", "⇐"), ("\\xLeftrightarrow", "⇔"), ("\\xmapsto", "↦"),
                    ("\\xhookleftarrow", "↩"), ("\\xhookrightarrow", "↪"), ("\\xlongequal", "="), ("\\xtofrom", "⇄"), ("\\xrightleftharpoons", "⇌"), ("\\xtwoheadrightarrow", "↠"), ("\\xleftharpoonup", "↼"), ("\\xleftharpoondown", "↽"),
                    ("\\xrightharpoonup", "⇀"), ("\\xrightharpoondown", "⇁"), ("\\xleftrightharpoons", "⇋"), ("\\xtwoheadleftarrow", "↞"),
                ]);
                self.t += c;
                self.op(o, Stretch);
                if self.s.flip() {
                    self.t += "[{";
                    self.seq(d, 0, 2);
                    self.t += "}]";
                }
                self.group(d);
            }
            11 => {
                self.t += self.s.pick(&["\\mathord", "\\mathbin", "\\mathrel", "\\mathop", "\\mathinner", "\\mathopen", "\\mathclose", "\\mathpunct"]);
                self.group(d);
            }
            12 => {
                self.t += self.s.pick(&["\\phantom", "\\cancel", "\\boxed", "\\textcolor{red}", "\\mathbf", "\\mathrm", "\\text{a}", "\\fbox{b}"]);
                self.group(d);
            }
            13 => {
                let (b, l, r) = self.s.pick(&[
                    ("matrix", ".", "."), ("pmatrix", "(", ")"), ("bmatrix", "[", "]"), ("Bmatrix", "{", "}"), ("vmatrix", "|", "|"), ("Vmatrix", "‖", "‖"), ("cases", "{", "."), ("rcases", ".", "}"),
                    ("aligned", ".", "."), ("gathered", ".", "."),
                ]);
                self.t += &format!("\\begin{{{b}}}");
                self.op(l, Stretch);
                let two = b != "gathered" && self.s.flip();
                for i in 0..self.s.range(1, 2) {
                    if i > 0 {
                        self.t += "\\\\ ";
                    }
                    self.seq(d, 0, 2);
                    if two {
                        self.t += "&";
                        self.seq(d, 0, 2);
                    }
                }
                self.t += &format!("\\end{{{b}}}");
                self.op(r, Stretch);
            }
            14 => {
                let (c, l, r) = self.s.pick(&[("\\binom", "(", ")"), ("\\dbinom", "(", ")"), ("\\genfrac[\\}{}{}", "[", "}"), ("\\genfrac{\\langle}{|}{}{0}", "⟨", "|"), ("\\genfrac{}{\\|}{0pt}{}", ".", "‖")]);
                self.t += &c.replace("[\\}", "{[}{\\}}");
                self.op(l, Stretch);
                self.group(d);
                self.group(d);
                self.op(r, Stretch);
            }
            15 => {
                let (c, l, r) = self.s.pick(&[("\\over ", ".", "."), ("\\choose ", "(", ")"), ("\\brack ", "[", "]"), ("\\brace ", "{", "}"), ("\\atop ", ".", ".")]);
                self.t += "{";
                self.op(l, Stretch);
                self.seq(d, 0, 2);
                self.t += c;
                self.seq(d, 0, 2);
                self.op(r, Stretch);
                self.t += "}";
            }
            _ => {
                let (c, v) = self.s.pick(&[
                    ("\\bra", &[("⟨", Plain), ("", Free), ("|", Plain)][..]),
                    ("\\ket", &[("|", Plain), ("", Free), ("⟩", Plain)]),
                    ("\\braket", &[("⟨", Plain), ("", Free), ("⟩", Plain)]),
                    ("\\set", &[("{", Plain), ("", Free), ("}", Plain)]),
                    ("\\Bra", &[("⟨", Stretch), ("", Free), ("|", Stretch)]),
                    ("\\Ket", &[("|", Stretch), ("", Free), ("⟩", Stretch)]),
                    ("\\Braket", &[("⟨", Stretch), ("|", Stretch), ("⟩", Stretch)]),
                    ("\\Set", &[("{", Stretch), ("|", Stretch), ("}", Stretch)]),
                ]);
                self.t += c;
                self.t += "{x";
                self.op(v[0].0, v[0].1);
                if self.s.flip() && v[1].0 == "|" {
                    self.t += "|y";
                    self.op("|", Stretch);
                }
                self.t += "}";
                self.op(v[2].0, v[2].1);
            }
        }
    }

    fn edge(&mut self) {
        if self.s.chance(1, 6) {
            self.t += ".";
        } else {
            self.delim(Stretch);
        }
    }
}

fn run(s: &mut Src, r: &mut Rec) -> Res {
    let i = s.below(5000) as usize;
    if let Some(p) = PROBES.get(i) {
        r.input = format!("\\overset{{a}}{{{p}}}");
        r.nontrivial = true;
        r.label("left out by the generator");
        let m = LatexToMathML::default().convert_with_local_state(&r.input, MathDisplay::Block).map(|m| m.mathml).unwrap_or_default();
        let mut got = vec![];
        read(&parse(&m)?, "infix", &mut got);
        return if got.iter().all(|x| x.1 == Ok(Plain)) { Ok(()) } else { fail("Plain is Stretch", m) };
    }
    let disp = crate::cfg::disp(s);
    let left = s.range(2, 20) as i32;
    let mut g = G { s, left, t: String::new(), want: vec![], seen: [false; 3] };
    g.seq(3, 1, 5);
    let (f, want, seen) = (g.t, g.want, g.seen);
    r.input = f.clone();
    r.label(dshow(disp));
    r.nontrivial = seen.iter().filter(|x| **x).count() >= 2;
    let c = LatexToMathML::new(MathCoreConfig { allow_unreliable_rendering: true, ..Default::default() }).map_err(|_| ()).unwrap();
    let m = match c.convert_with_local_state(&f, disp) {
        Ok(m) => m.mathml,
        Err(e) => return fail(format!("refused: {}", crate::engine::norm(&e.error_message())), f),
    };
    let root = parse(&m)?;
    let mut got = vec![];
    read(&root, "infix", &mut got);
    if got.len() != want.len() {
        return fail("another number of operators", format!("{f}\nexpected {want:?}\ngot {got:?}"));
    }
    for ((t, k), (u, l)) in want.iter().zip(&got) {
        if !t.is_empty() && t != u {
            return fail("another operator", format!("{f}\nexpected {t} {k:?}, got {u} {l:?}\n{m}"));
        }
        match l {
            Err(e) => return fail("half a size", format!("{f}\n{u}: {e}\n{m}")),
            Ok(l) if l != k && *k != Free => return fail(format!("{k:?} is {l:?}"), format!("{f}\n{u}: expected {k:?}, got {l:?}\n{m}")),
            _ => {}
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "two of: a plain delimiter, one of \\left...\\right, one of a \\big size",
        quick: 300_000,
        thorough: 10_000_000,
        enumerate: PROBES.len() as u64,
        run,
        assumptions: &[
            "the four \\big sizes are those of the pinned commit (1.2, 1.623, 2.047 and 2.470 em); what is decided is that every delimiter gets the size asked for",
            "stretching is by the operator dictionary of MathML Core, where the output has no attribute; whether a delimiter stretches symmetrically is not decided",
            "the corners (\\ulcorner) are left out as delimiters: fonts have them in one size only",
        ],
    }]
}
