//! Grammar-directed generator for LaTeX math, plus noise and mutation generators.

use crate::cmds::*;
use crate::engine::Src;

#[derive(Clone, Copy)]
pub struct Opts {
    /// Maximum nesting of constructs.
    pub depth: u32,
    /// Rough bound on the number of atoms.
    pub budget: i32,
    pub tables: bool,
    pub text: bool,
    pub scripts: bool,
    pub color: bool,
    pub big: bool,
    pub unicode: bool,
    /// Style and font switches, `\color`, infix fractions: things that reach to the group's end.
    pub switches: bool,
    /// Numbered environments at top level with `\tag`, `\label`, `\eqref`.
    pub numbering: bool,
    /// Definitions and uses of custom commands.
    pub macros: bool,
    /// Probability (in 1/1000) of inserting something out of place.
    pub noise: u64,
    /// Extra white space and comments between tokens.
    pub layout: bool,
}

pub const FULL: Opts = Opts {
    depth: 5,
    budget: 40,
    tables: true,
    text: true,
    scripts: true,
    color: true,
    big: true,
    unicode: true,
    switches: true,
    numbering: true,
    macros: true,
    noise: 0,
    layout: false,
};

pub struct G<'a> {
    pub s: &'a mut Src,
    pub o: Opts,
    pub out: String,
    left: i32,
    word: bool,
    labels: u32,
    macros: Vec<(String, u8)>,
}

const ENVS_COL: &[&str] = &[
    "matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix", "cases", "rcases", "dcases",
    "drcases", "aligned", "align", "align*",
];
const ENVS_ROW: &[&str] = &["gathered", "gather", "gather*", "multline"];
const ENVS_ONE: &[&str] = &["equation", "equation*"];
const ENVS_ARR: &[&str] = &["array", "darray", "subarray"];
const HL: &[&str] = &["matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix", "array", "darray", "subarray"];

pub const DELIMS: &[&str] = &[
    "(", ")", "[", "]", "|", "/", "\\{", "\\}", "\\|", "\\langle", "\\rangle", "\\lfloor",
    "\\rceil", "\\vert", "\\Vert", "\\uparrow", "\\Downarrow", "\\updownarrow", "\\backslash",
    "\\lbrace", "\\rbrack", "\\lvert", "\\rVert", "\\ulcorner", "\\lrcorner", "\\lmoustache",
    "\\rgroup", "\\llbracket", "<", ">", "⟨", "⟩", "⌈", "⌋",
];

pub const LENGTHS: &[&str] = &[
    "1em", "-1em", "0.5em", "2pt", "-2.5pt", "1ex", "3mm", "1cm", "0.1in", "0pt", "1pc", "10px",
    "1bp", "100sp", "1dd", "1cc", "-.5em", "2.em", " 1em ", "1 em",
];
pub const MULENGTHS: &[&str] = &["1mu", "-3mu", "0.5mu", "18mu", "-.5mu", "0mu"];
pub const COLORS: &[&str] = &["red", "blue", "Maroon", "ForestGreen", "black", "white", "Periwinkle"];

const TEXT_CHARS: &[&str] = &[
    "a", "b", "x", "Z", "1", "9", " ", " ", ",", ".", "!", "?", "-", "(", ")", "\"", "'", "<", ">",
    "é", "ß", "漢", "π", "😀", ":", ";", "/", "=", "+", "*", "@", "[", "]", "|", "`", "~",
];

pub fn letter(s: &mut Src) -> char {
    let n = s.below(52) as u8;
    (if n < 26 { b'a' + n } else { b'A' + n - 26 }) as char
}

impl G<'_> {
    pub fn put(&mut self, t: &str) {
        if self.word && t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '*') {
            self.out.push(' ');
        }
        self.out.push_str(t);
        // A control word swallows following letters.
        let b = t.as_bytes();
        let mut i = b.len();
        while i > 0 && b[i - 1].is_ascii_alphabetic() {
            i -= 1;
        }
        self.word = if i < b.len() && i > 0 && b[i - 1] == b'\\' {
            true
        } else if i == 0 {
            self.word && b.is_empty()
        } else {
            false
        };
    }
    fn cmd(&mut self, c: &str) {
        let t = format!("\\{c}");
        self.put(&t);
    }
    fn gap(&mut self) {
        if self.o.layout {
            match self.s.below(12) {
                8 | 9 => {
                    self.out.push(' ');
                    self.word = false;
                }
                10 => {
                    self.out.push_str("\n  ");
                    self.word = false;
                }
                11 => {
                    self.out.push_str("% comment \\foo { $\n");
                    self.word = false;
                }
                _ => {}
            }
        }
    }

    pub fn expr(&mut self, depth: u32, lo: usize, hi: usize) {
        let n = self.s.long(lo, hi);
        for _ in 0..n {
            self.gap();
            self.item(depth);
            if self.left <= 0 {
                break;
            }
        }
    }

    /// An argument: a group, or a single token.
    pub fn arg(&mut self, depth: u32) {
        match self.s.below(6) {
            0 => {
                self.put("{");
                let d = self.s.below(10);
                self.put(&d.to_string());
                self.put("}");
            }
            1 => {
                let c = letter(self.s).to_string();
                self.put(&c);
            }
            2 => {
                let c = self.s.pick(LETTER);
                self.cmd(c);
            }
            _ => self.group(depth),
        }
    }
    pub fn group(&mut self, depth: u32) {
        self.put("{");
        self.expr(depth.saturating_sub(1), 0, 3);
        self.gap();
        self.put("}");
    }
    fn script_arg(&mut self, depth: u32) {
        self.arg(depth);
    }

    pub fn item(&mut self, depth: u32) {
        self.left -= 1;
        if self.o.noise > 0 && self.s.chance(self.o.noise, 1000) {
            self.noise();
            return;
        }
        self.atom(depth);
        if self.o.scripts && self.s.chance(1, 4) {
            self.gap();
            match self.s.below(8) {
                0 => {
                    self.put("_");
                    self.script_arg(depth);
                }
                1 | 2 => {
                    self.put("^");
                    self.script_arg(depth);
                }
                3 => {
                    self.put("_");
                    self.script_arg(depth);
                    self.put("^");
                    self.script_arg(depth);
                }
                4 => {
                    self.put("^");
                    self.script_arg(depth);
                    self.put("_");
                    self.script_arg(depth);
                }
                5 => self.put("'"),
                6 => {
                    let n = self.s.range(1, 6) as usize;
                    self.put(&"'".repeat(n));
                    self.put("^");
                    self.script_arg(depth);
                }
                _ => {
                    self.put("_");
                    self.script_arg(depth);
                    self.put("''");
                }
            }
        }
    }

    fn plain(&mut self) {
        match self.s.weighted(&[8, 5, 3, 3, 4, 4, 3, 3, 2, 2, 2, 3]) {
            0 => {
                let c = letter(self.s).to_string();
                self.put(&c);
            }
            1 => {
                let n = self.s.len(1, 4);
                for _ in 0..n {
                    let d = self.s.below(10).to_string();
                    self.put(&d);
                }
                if self.s.chance(1, 4) {
                    self.put(".");
                    let d = self.s.below(100).to_string();
                    self.put(&d);
                }
            }
            2 => {
                let t = self.s.pick(&[
                    "+", "-", "*", "/", "=", "<", ">", ",", ";", ":", "!", "?", ".", "|", "@",
                    "\"", "`", ":=", "~",
                ]);
                self.put(t);
            }
            3 => {
                let t = self.s.pick(&["(", ")", "[", "]", "(", ")"]);
                self.put(t);
            }
            4 => {
                let c = self.s.pick(LETTER);
                self.cmd(c);
            }
            5 => {
                let c = self.s.pick(RELATION);
                self.cmd(c);
            }
            6 => {
                let set = self.s.pick(&[BINARY_OP, FORCE_BINARY_OP]);
                let c = self.s.pick(set);
                self.cmd(c);
            }
            7 => {
                let set = self.s.pick(&[ORD, FORCE_ORD, FORCE_RELATION, FORCE_PUNCTUATION]);
                let c = self.s.pick(set);
                self.cmd(c);
            }
            8 => {
                let set = self.s.pick(&[OPEN, CLOSE, FORCE_OPEN, FORCE_CLOSE]);
                let c = self.s.pick(set);
                self.cmd(c);
            }
            9 => {
                let set = self.s.pick(&[SPACE, SYM_TEXT, NON_BREAKING_SPACE]);
                let c = self.s.pick(set);
                self.cmd(c);
            }
            10 => {
                let set = self.s.pick(&[FUNC, PSEUDO_OPERATOR_LIMITS, LETTER_TEXT]);
                let c = self.s.pick(set);
                self.cmd(c);
            }
            _ => {
                if self.o.unicode {
                    match self.s.below(3) {
                        0 => {
                            let c = self.s.pick(UNICODE_OPS);
                            self.put(c);
                        }
                        1 => {
                            let t = self.s.pick(&[
                                "α", "β", "Γ", "é", "ж", "א", "中", "ℝ", "∂", "∞", "√", "′", "″",
                                "‴", "⁗", "‵", "…", "⋯", "·", "×", "÷", "±", "¬", "‖", "∣", "−",
                                "𝐀", "𝔸", "\u{a0}", "\u{2009}", "²", "½", "😀",
                            ]);
                            self.put(t);
                        }
                        _ => {
                            let c = char::from_u32(self.s.range(0xa1, 0x2fff) as u32)
                                .unwrap_or('x')
                                .to_string();
                            self.put(&c);
                        }
                    }
                } else {
                    self.put("y");
                }
            }
        }
    }

    fn atom(&mut self, depth: u32) {
        if depth == 0 || self.left <= 0 {
            self.plain();
            return;
        }
        let d = depth - 1;
        let o = self.o;
        let f = u32::from;
        match self.s.weighted(&[
            20,                 // 0 plain
            4,                  // 1 group
            4,                  // 2 frac
            3,                  // 3 sqrt
            3,                  // 4 accent
            2,                  // 5 brace
            3,                  // 6 left/right
            f(o.big) * 2,       // 7 big
            f(o.text) * 3,      // 8 text
            4,                  // 9 transform
            f(o.tables) * 4,    // 10 env
            2,                  // 11 space
            f(o.color) * 2,     // 12 textcolor
            2,                  // 13 phantom / enclose
            3,                  // 14 mathclass
            2,                  // 15 operatorname
            2,                  // 16 overlay
            4,                  // 17 big operators
            2,                  // 18 overset, xarrow
            1,                  // 19 sideset, prescript
            1,                  // 20 genfrac, cramped
            2,                  // 21 predefined
            1,                  // 22 mathchoice, raisebox
            f(o.switches) * 3,  // 23 switches
            f(o.macros) * 3,    // 24 macros
            f(o.numbering),     // 25 eqref
            1,                  // 26 begingroup
        ]) {
            0 => self.plain(),
            1 => self.group(depth),
            2 => {
                let c = if self.s.chance(1, 4) {
                    self.s.pick(BINOM)
                } else {
                    self.s.pick(FRAC)
                };
                self.cmd(c);
                self.arg(d);
                self.arg(d);
            }
            3 => {
                self.cmd("sqrt");
                if self.s.chance(1, 3) {
                    self.put("[");
                    let n = self.s.below(9).to_string();
                    self.put(&n);
                    if self.s.flip() {
                        self.put("n");
                    }
                    self.put("]");
                }
                self.arg(d);
            }
            4 => {
                let c = self.s.pick(ACCENT);
                self.cmd(c);
                self.arg(d);
            }
            5 => {
                let c = self.s.pick(OVER_UNDER_BRACE);
                self.cmd(c);
                self.group(d);
                if self.s.flip() {
                    self.put(if c.starts_with("over") { "^" } else { "_" });
                    self.group(d);
                }
            }
            6 => {
                self.cmd("left");
                let x = if self.s.chance(1, 6) { "." } else { self.s.pick(DELIMS) };
                self.put(x);
                self.expr(d, 0, 3);
                if self.s.chance(1, 4) {
                    self.cmd("middle");
                    let x = self.s.pick(DELIMS);
                    self.put(x);
                    self.expr(d, 0, 2);
                }
                self.cmd("right");
                let x = if self.s.chance(1, 6) { "." } else { self.s.pick(DELIMS) };
                self.put(x);
            }
            7 => {
                let c = self.s.pick(BIG);
                self.cmd(c);
                let x = self.s.pick(DELIMS);
                self.put(x);
            }
            8 => self.text(),
            9 => {
                let c = self.s.pick(TRANSFORM);
                self.cmd(c);
                self.arg(d);
            }
            10 => self.env(d),
            11 => {
                let c = self.s.pick(&["hspace", "mspace", "kern", "hskip", "mkern", "mskip"]);
                self.cmd(c);
                let math = c.starts_with('m');
                let l = self.s.pick(if math { MULENGTHS } else { LENGTHS });
                if c.ends_with("space") {
                    self.put("{");
                    self.put(l);
                    self.put("}");
                } else {
                    self.put(l.trim());
                    self.put(" ");
                }
            }
            12 => {
                self.cmd("textcolor");
                self.put("{");
                let c = self.s.pick(COLORS);
                self.put(c);
                self.put("}");
                self.group(d);
            }
            13 => {
                let set = self.s.pick(&[PHANTOM, ENCLOSE, &["fbox"], CRAMPED]);
                let c = self.s.pick(set);
                self.cmd(c);
                if c == "fbox" {
                    self.put("{");
                    self.text_body(2);
                    self.put("}");
                } else {
                    self.arg(d);
                }
            }
            14 => {
                let c = self.s.pick(MATH_CLASS);
                self.cmd(c);
                if c == "mathop" {
                    self.arg(d);
                    if self.s.chance(1, 3) {
                        self.limits();
                        self.put("_");
                        self.arg(d);
                    }
                } else {
                    self.arg(d);
                }
            }
            15 => {
                let c = self.s.pick(OPERATOR_NAME);
                self.cmd(c);
                self.put("{");
                let n = self.s.len(0, 5);
                for _ in 0..n {
                    let t = self.s.pick(&[
                        "a", "b", "x", "M", "1", "-", "*", "'", "/", "<", ">", "\\,", " ", ":", "é",
                    ]);
                    self.put(t);
                }
                self.put("}");
            }
            16 => {
                let c = self.s.pick(OVERLAY);
                self.cmd(c);
                match self.s.below(4) {
                    0 => {
                        let c = self.s.pick(RELATION);
                        self.cmd(c);
                    }
                    1 => {
                        let t = self.s.pick(&["=", "<", ">", "a", "+"]);
                        self.put(t);
                    }
                    2 => {
                        let c = self.s.pick(BINARY_OP);
                        self.cmd(c);
                    }
                    _ => {
                        self.put("{");
                        let c = self.s.pick(RELATION);
                        self.cmd(c);
                        self.put("}");
                    }
                }
            }
            17 => {
                let set = self.s.pick(&[OP, PSEUDO_OPERATOR_LIMITS, FUNC]);
                let c = self.s.pick(set);
                self.cmd(c);
                if self.s.chance(1, 4) {
                    self.limits();
                }
                if self.s.flip() {
                    self.put("_");
                    self.arg(d);
                }
                if self.s.flip() {
                    self.put("^");
                    self.arg(d);
                }
            }
            18 => {
                if self.s.flip() {
                    let set = self.s.pick(&[OVERSET, UNDERSET]);
                    let c = self.s.pick(set);
                    self.cmd(c);
                    self.arg(d);
                    self.arg(d);
                } else {
                    let c = self.s.pick(X_ARROW);
                    self.cmd(c);
                    if self.s.flip() {
                        self.put("[");
                        self.put("u");
                        self.put("]");
                    }
                    self.group(d);
                }
            }
            19 => {
                if self.s.flip() {
                    self.cmd("sideset");
                    self.put("{_");
                    self.arg(d);
                    self.put("^");
                    self.arg(d);
                    self.put("}{");
                    if self.s.flip() {
                        self.put("'");
                    } else {
                        self.put("^");
                        self.arg(d);
                    }
                    self.put("}");
                    let c = self.s.pick(&["sum", "prod", "bigcup"]);
                    self.cmd(c);
                } else {
                    self.cmd("prescript");
                    self.group(d);
                    self.group(d);
                    self.group(d);
                }
            }
            20 => {
                if self.s.flip() {
                    self.cmd("genfrac");
                    self.put("{");
                    if self.s.flip() {
                        let x = self.s.pick(DELIMS);
                        self.put(x);
                    }
                    self.put("}{");
                    if self.s.flip() {
                        let x = self.s.pick(DELIMS);
                        self.put(x);
                    }
                    self.put("}{");
                    if self.s.flip() {
                        let l = self.s.pick(LENGTHS);
                        self.put(l);
                    }
                    self.put("}{");
                    if self.s.flip() {
                        let n = self.s.below(4).to_string();
                        self.put(&n);
                    }
                    self.put("}");
                    self.arg(d);
                    self.arg(d);
                } else {
                    self.cmd("cramped");
                    if self.s.flip() {
                        self.put("[");
                        let c = self.s.pick(STYLE);
                        self.cmd(c);
                        self.put("]");
                    }
                    self.group(d);
                }
            }
            21 => {
                if self.s.chance(1, 2) {
                    let c = self.s.pick(CUSTOM0);
                    self.cmd(c);
                } else {
                    let c = self.s.pick(CUSTOM1);
                    self.cmd(c);
                    if c == "fbox" {
                        self.put("{f b}");
                    } else {
                        self.group(d);
                    }
                }
            }
            22 => {
                if self.s.flip() {
                    self.cmd("mathchoice");
                    for _ in 0..4 {
                        self.group(d);
                    }
                } else {
                    self.cmd("raisebox");
                    self.put("{");
                    let l = self.s.pick(&["1em", "-2pt", "0pt", "0.5ex"]);
                    self.put(l);
                    self.put("}");
                    self.put("{");
                    self.text_body(1);
                    self.put("}");
                }
            }
            23 => {
                let in_group = self.s.chance(2, 3);
                if in_group {
                    self.put("{");
                }
                match self.s.below(4) {
                    0 => {
                        let c = self.s.pick(STYLE);
                        self.cmd(c);
                        self.expr(d, 0, 3);
                    }
                    1 => {
                        let c = self.s.pick(TRANSFORM_SWITCH);
                        self.cmd(c);
                        self.expr(d, 0, 3);
                    }
                    2 => {
                        self.color();
                        self.expr(d, 0, 3);
                    }
                    _ => {
                        if in_group {
                            self.expr(d, 0, 2);
                            let c = self.s.pick(INFIX_GEN_FRAC);
                            self.cmd(c);
                        }
                        self.expr(d, 0, 2);
                    }
                }
                if in_group {
                    self.put("}");
                }
            }
            24 => self.macros(d),
            25 => {
                self.cmd("eqref");
                self.put("{");
                let l = self.label_name();
                self.put(&l);
                self.put("}");
            }
            _ => {
                self.cmd("begingroup");
                self.expr(d, 0, 3);
                self.cmd("endgroup");
            }
        }
    }

    fn limits(&mut self) {
        let c = self.s.pick(LIMITS);
        self.cmd(c);
    }

    fn color(&mut self) {
        self.cmd("color");
        match self.s.below(4) {
            0 => {
                let r: Vec<String> = (0..3).map(|_| self.s.below(256).to_string()).collect();
                let t = format!("[RGB]{{{}}}", r.join(","));
                self.put(&t);
            }
            1 => {
                let r: Vec<String> = (0..3).map(|_| format!("0.{}", self.s.below(100))).collect();
                let t = format!("[rgb]{{{}}}", r.join(","));
                self.put(&t);
            }
            2 => {
                let t = format!("[HTML]{{{:06X}}}", self.s.below(1 << 24));
                self.put(&t);
            }
            _ => {
                let c = self.s.pick(COLORS);
                let t = format!("{{{c}}}");
                self.put(&t);
            }
        }
    }

    pub fn text(&mut self) {
        let c = self.s.pick(TEXT);
        self.cmd(c);
        self.put("{");
        self.text_body(2);
        self.put("}");
    }

    pub fn text_body(&mut self, depth: u32) {
        let n = self.s.len(0, 6);
        for _ in 0..n {
            match self.s.weighted(&[12, 2, 2, 2, 1, 2]) {
                0 => {
                    let t = self.s.pick(TEXT_CHARS);
                    self.put(t);
                }
                1 => {
                    let c = self.s.pick(TEXT_LETTER);
                    self.cmd(c);
                    self.put("{}");
                }
                2 => {
                    let c = self.s.pick(TEXT_ACCENT);
                    self.cmd(c);
                    if self.s.flip() {
                        self.put("{");
                        let c = letter(self.s).to_string();
                        self.put(&c);
                        self.put("}");
                    } else {
                        let c = letter(self.s).to_string();
                        self.put(&c);
                    }
                }
                3 if depth > 0 => {
                    let set = self.s.pick(&[TEXT, TEXT_STYLE]);
                    let c = self.s.pick(set);
                    self.cmd(c);
                    self.put("{");
                    self.text_body(depth - 1);
                    self.put("}");
                }
                4 if depth > 0 => {
                    let c = self.s.pick(TEXT_SIZE);
                    self.cmd(c);
                    self.put(" ");
                }
                5 if depth > 0 => {
                    self.put("{");
                    self.text_body(depth - 1);
                    self.put("}");
                }
                _ => {
                    let t = self.s.pick(&[
                        "\\{", "\\}", "\\&", "\\%", "\\$", "\\#", "\\_", "\\ ", "\\,", "--", "``",
                    ]);
                    self.put(t);
                }
            }
        }
    }

    fn label_name(&mut self) -> String {
        self.s
            .pick(&["a", "b", "eq:1", "x y", "q<r", "é", "a&b", "\"", "50\\%"])
            .replace("\\%", "%")
            .replace(['&', '%'], "")
    }

    fn row_info(&mut self, used_label: &mut bool) {
        match self.s.below(7) {
            1 => self.cmd("notag"),
            2 => self.cmd("nonumber"),
            3 => {
                let c = self.s.pick(TAG);
                self.cmd(c);
                self.put("{");
                let t = self.s.pick(&["1", "A", "x<y", "2'", "*"]);
                self.put(t);
                self.put("}");
            }
            4 if !*used_label => {
                *used_label = true;
                self.cmd("label");
                self.put("{");
                self.labels += 1;
                let l = self.label_name();
                self.put(&l);
                self.put("}");
            }
            _ => {}
        }
    }

    pub fn env(&mut self, depth: u32) {
        let kind = self.s.weighted(&[6, 3, 1, 4]);
        let env = match kind {
            0 => self.s.pick(ENVS_COL),
            1 => self.s.pick(ENVS_ROW),
            2 => self.s.pick(ENVS_ONE),
            _ => self.s.pick(ENVS_ARR),
        };
        let numbered = matches!(
            env,
            "align" | "align*" | "gather" | "gather*" | "multline" | "equation" | "equation*"
        ) && self.o.numbering;
        let t = format!("\\begin{{{env}}}");
        self.put(&t);
        if kind == 3 {
            self.put("{");
            let n = self.s.len(1, 4);
            for _ in 0..n {
                let t = self.s.pick(&["c", "l", "r", "c", "|", ":", " c", "||"]);
                self.put(t);
            }
            self.put("c}");
        }
        let hl = HL.contains(&env);
        let rows = if kind == 2 { 1 } else { self.s.long(1, 4) };
        let mut used_label = false;
        for r in 0..rows {
            if hl && self.s.chance(1, 6) {
                let c = self.s.pick(H_LINE);
                self.cmd(c);
            }
            let cols = if kind == 0 || kind == 3 { self.s.long(1, 4) } else { 1 };
            for c in 0..cols {
                if c > 0 {
                    self.put("&");
                }
                if numbered {
                    self.row_info(&mut used_label);
                }
                self.expr(depth, 0, 2);
                if self.o.switches && self.s.chance(1, 10) {
                    match self.s.below(3) {
                        0 => {
                            let c = self.s.pick(STYLE);
                            self.cmd(c);
                        }
                        1 => self.color(),
                        _ => {
                            let c = self.s.pick(INFIX_GEN_FRAC);
                            self.cmd(c);
                        }
                    }
                    self.expr(depth, 0, 2);
                }
                if numbered && self.s.chance(1, 3) {
                    self.row_info(&mut used_label);
                }
            }
            used_label = false;
            if r + 1 < rows || self.s.chance(1, 8) {
                let t = if self.s.chance(1, 6) { "\\newline" } else { "\\\\" };
                self.put(t);
                self.gap();
            }
        }
        let t = format!("\\end{{{env}}}");
        self.put(&t);
    }

    fn macros(&mut self, depth: u32) {
        if !self.macros.is_empty() && self.s.flip() {
            let i = self.s.usize(self.macros.len());
            let (n, a) = self.macros[i].clone();
            self.put(&n);
            for _ in 0..a {
                self.arg(depth);
            }
            return;
        }
        let name = format!("\\{}", self.s.pick(&["foo", "bar", "Qz", "mymac", "k", "w", "zz"]));
        let args = self.s.below(3) as u8;
        let fresh = !self.macros.iter().any(|(n, _)| *n == name);
        match self.s.below(4) {
            0 | 1 => {
                let c = if fresh { "newcommand" } else { "renewcommand" };
                self.cmd(c);
                let t = if self.s.flip() { format!("{{{name}}}") } else { name.clone() };
                self.put(&t);
                if args > 0 {
                    let t = format!("[{args}]");
                    self.put(&t);
                }
            }
            2 => {
                let c = self.s.pick(DEF);
                self.cmd(c);
                self.put(&name);
                for i in 1..=args {
                    let t = format!("#{i}");
                    self.put(&t);
                }
            }
            _ => {
                self.cmd("let");
                self.put(&name);
                if self.s.flip() {
                    self.put("=");
                }
                let set = self.s.pick(&[LETTER, RELATION, BINARY_OP]);
                let c = self.s.pick(set);
                self.cmd(c);
                self.macros.retain(|(n, _)| *n != name);
                self.macros.push((name, 0));
                return;
            }
        }
        self.put("{");
        let n = self.s.len(0, 4);
        for _ in 0..n {
            if args > 0 && self.s.flip() {
                let t = format!("#{}", self.s.range(1, u64::from(args)));
                if self.s.flip() {
                    self.put(&t);
                } else {
                    let t = format!("{{{t}}}");
                    self.put(&t);
                }
            } else {
                self.item(depth.min(1));
            }
        }
        self.put("}");
        self.macros.retain(|(n, _)| *n != name);
        self.macros.push((name, args));
    }

    /// Something that may well be out of place.
    fn noise(&mut self) {
        match self.s.below(10) {
            0 => {
                let t = self.s.pick(&[
                    "}", "{", "]", "[", "&", "\\\\", "$", "#", "#1", "_", "^", "'", "%", "~", "\\",
                    "\\end{matrix}", "\\begin{matrix}", "\\right)", "\\left(", "\\hline", "\u{0}",
                    "\r\n", "\u{338}", "\u{fe0e}", "\u{feff}", "\u{10ffff}",
                ]);
                self.put(t);
            }
            1..=6 => {
                let all: &[&[&str]] = ALL;
                let set = self.s.pick(all);
                let c = self.s.pick(set);
                self.cmd(c);
            }
            7 => {
                let n = self.s.len(1, 6);
                let name: String = (0..n).map(|_| letter(self.s)).collect();
                self.cmd(&name);
            }
            8 => {
                let c = char::from_u32(self.s.below(0x3000) as u32).unwrap_or('?').to_string();
                self.put(&c);
            }
            _ => {
                let c = char::from_u32(self.s.below(0x11_0000) as u32).unwrap_or('?').to_string();
                self.put(&c);
            }
        }
    }
}

pub const ALL: &[&[&str]] = &[
    ACCENT, BIG, BINARY_OP, BINOM, CLOSE, COLOR, CRAMPED, CUSTOM0, CUSTOM1, CUSTOM2, CUSTOM_SPACE,
    DEF, ENCLOSE, EQ_REF, FORCE_BINARY_OP, FORCE_CLOSE, FORCE_OPEN, FORCE_ORD, FORCE_PUNCTUATION,
    FORCE_RELATION, FRAC, FUNC, GENFRAC, GLOBAL, GROUP_BEGIN, GROUP_END, H_LINE, INFIX_GEN_FRAC,
    KERN_OR_SKIP, LABEL, LEFT, LET, LETTER, LETTER_TEXT, LIMITS, MATH_CHOICE, MATH_CLASS, MIDDLE,
    NEW_COMMAND, NEW_LINE, NO_NUMBER, NON_BREAKING_SPACE, OP, OPEN, OPERATOR_NAME, ORD,
    OVER_UNDER_BRACE, OVERLAY, OVERSET, PHANTOM, PRESCRIPT, PSEUDO_OPERATOR_LIMITS, RAISE_BOX,
    RELATION, RELAX, RIGHT, SIDESET, SPACE, SQRT, STYLE, SYM_TEXT, TAG, TEXT, TEXT_ACCENT,
    TEXT_LETTER, TEXT_SIZE, TEXT_STYLE, TRANSFORM, TRANSFORM_SWITCH, UNDERSET, X_ARROW,
    &["begin{matrix}", "end{matrix}", "begin{array}{c|c}", "end{array}", "begin{align}",
      "end{align}", "begin{cases}", "end{cases}"],
];

pub fn new<'a>(s: &'a mut Src, o: Opts) -> G<'a> {
    G {
        s,
        left: o.budget,
        o,
        out: String::new(),
        word: false,
        labels: 0,
        macros: Vec::new(),
    }
}

/// A mostly well-formed expression.
pub fn math(s: &mut Src, o: Opts) -> String {
    let mut g = new(s, o);
    if o.tables && g.s.chance(1, 5) {
        g.env(o.depth);
    } else {
        g.expr(o.depth, 1, 8);
    }
    g.out
}

pub fn seeds() -> &'static Vec<String> {
    static S: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    S.get_or_init(|| serde_json::from_str(include_str!("seeds.json")).unwrap())
}

fn cut(s: &str, i: usize) -> usize {
    let mut i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Split into TeX-ish tokens, for mutation.
pub fn tokens(s: &str) -> Vec<String> {
    let mut out = Vec::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let st = i;
        if cs[i] == '\\' && i + 1 < cs.len() {
            i += 1;
            if cs[i].is_ascii_alphabetic() {
                while i < cs.len() && cs[i].is_ascii_alphabetic() {
                    i += 1;
                }
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
        out.push(cs[st..i].iter().collect());
    }
    out
}

/// A test-suite expression, or two, with token-level edits.
pub fn mutated(s: &mut Src) -> String {
    let a = s.pick_ref(seeds()).clone();
    let mut t = tokens(&a);
    let n = s.len(0, 6);
    for _ in 0..n {
        match s.below(7) {
            0 if !t.is_empty() => {
                let i = s.usize(t.len());
                t.remove(i);
            }
            1 if !t.is_empty() => {
                let i = s.usize(t.len());
                let x = t[i].clone();
                let j = s.usize(t.len() + 1);
                t.insert(j, x);
            }
            2 if t.len() > 1 => {
                let i = s.usize(t.len());
                let j = s.usize(t.len());
                t.swap(i, j);
            }
            3 => {
                let b = s.pick_ref(seeds()).clone();
                let b = tokens(&b);
                if !b.is_empty() {
                    let i = s.usize(b.len());
                    let m = (i + s.len(1, 8)).min(b.len());
                    let j = s.usize(t.len() + 1);
                    let tail = t.split_off(j);
                    t.extend_from_slice(&b[i..m]);
                    t.extend(tail);
                }
            }
            4 => {
                let set = s.pick(ALL);
                let c = s.pick(set);
                let j = s.usize(t.len() + 1);
                t.insert(j, format!("\\{c} "));
            }
            5 => {
                let x = s.pick(&[
                    "{", "}", "&", "\\\\", "_", "^", "'", "[", "]", "#1", "$", "%", "\n", "<", "\"",
                    "\\left", "\\right", "|", "~", "\u{338}", "é", "ﷺ", "1", ".",
                ]);
                let j = s.usize(t.len() + 1);
                t.insert(j, x.to_string());
            }
            _ => {
                if !t.is_empty() {
                    let i = s.usize(t.len());
                    let l = s.len(1, 4).min(t.len() - i);
                    t.drain(i..i + l);
                }
            }
        }
    }
    t.concat()
}

/// Raw soup: bytes, characters, tokens.
pub fn soup(s: &mut Src) -> String {
    let n = s.len(0, 24);
    let mut out = String::new();
    for _ in 0..n {
        match s.below(5) {
            0 => out.push(char::from_u32(s.range(0x20, 0x7e) as u32).unwrap()),
            1 => {
                let set = s.pick(ALL);
                let c = s.pick(set);
                out.push('\\');
                out.push_str(c);
                if s.flip() {
                    out.push(' ');
                }
            }
            2 => out.push_str(s.pick(&[
                "{", "}", "{", "}", "_", "^", "&", "\\\\", "[", "]", "1", "x", "'", "#1", "#", "%",
                "\n", " ", "\\foo", "(", ")", "|",
            ])),
            3 => out.push(char::from_u32(s.below(0x3000) as u32).unwrap_or('?')),
            _ => out.push(char::from_u32(s.below(0x11_0000) as u32).unwrap_or('?')),
        }
    }
    out
}

/// The general-purpose hostile input.
/// Something inside of many constructs.
pub fn deep(s: &mut Src, inner: &str) -> String {
    const AROUND: &[(&str, &str)] = &[
        ("\\sqrt{", "}"), ("{a", "}"), ("\\frac{1}{", "}"), ("x^{", "}"), ("\\left(", "\\right)"), ("\\begin{matrix}", "\\end{matrix}"), ("\\hat{", "}"), ("\\overset{a}{", "}"),
        ("\\mathbf{", "}"), ("\\displaystyle ", ""), ("\\color{red}", ""), ("\\mathrel{", "}"), ("\\binom{", "}{b}"), ("\\sqrt[3]{", "}"), ("\\boxed{", "}"), ("\\begin{aligned}a&", "\\end{aligned}"),
        ("\\text{a}{", "}b"), ("\\underbrace{", "}_c"), ("\\sum_{", "}"), ("\\phantom{", "}"), ("\\bra{", "}"), ("\\pmod{", "}"), ("\\textcolor{blue}{", "}"),
    ];
    let n = s.range(5, 120);
    let few = [s.pick(AROUND), s.pick(AROUND)];
    let any = s.flip();
    let mut head = String::new();
    let mut tail = Vec::new();
    for _ in 0..n {
        let (a, b) = if any { s.pick(AROUND) } else { s.pick(&few) };
        head.push_str(a);
        tail.push(b);
    }
    head.push_str(inner);
    for b in tail.iter().rev() {
        head.push_str(b);
    }
    head
}

pub fn hostile(s: &mut Src) -> (String, &'static str) {
    match s.weighted(&[80, 80, 80, 40, 20, 60, 3]) {
        6 => {
            let t = math(s, Opts { noise: 2, ..FULL });
            (deep(s, &t), "deep")
        }
        5 => {
            // Other characters, of any length, in place of letters and digits.
            const POOL: &[&str] = &[
                "\u{301}", "\u{338}", "\u{20d2}", "\u{fe00}", "\u{fe0e}", "\u{fe0f}", "\u{e0100}", "\u{200d}", "é", "ß", "π", "中", "ﷺ", "😀", "𝔄", "ℝ", "ı", "≠", "\u{a0}", "\u{2061}", "à",
            ];
            let t = match s.below(3) {
                0 => math(s, FULL),
                1 => {
                    let o = s.pick_ref(OVERLAY).to_string();
                    let f = s.pick(&["mathrm", "mathbf", "mathit", "operatorname", "text", "textbf", "mathtt", "mathord", "mathrel", "mathop", "hat", "overset{a}", "operatorname*", "mathbin"]);
                    let n = s.len(1, 6);
                    let x: String = (0..n).map(|_| letter(s)).collect();
                    format!("\\{o}\\{f}{{{x}}}{}", s.pick(&["", "_a", "^b", "xyz", "é"]))
                }
                _ => mutated(s),
            };
            let p = s.pick(&[5u64, 25, 70]);
            let mut out = String::new();
            for (i, tok) in tokens(&t).into_iter().enumerate() {
                if tok.len() == 1 && tok.as_bytes()[0].is_ascii_alphanumeric() && (i > 200 || s.chance(p, 100)) {
                    out.push_str(s.pick(POOL));
                } else {
                    out.push_str(&tok);
                }
            }
            (out, "other characters")
        }
        0 => (math(s, FULL), "grammar"),
        1 => {
            let noise = s.pick(&[15u64, 60, 200]);
            (
                math(s, Opts { noise, layout: true, ..FULL }),
                "grammar+noise",
            )
        }
        2 => (mutated(s), "mutated test input"),
        3 => (soup(s), "soup"),
        _ => {
            // truncated
            let t = math(s, Opts { noise: 10, ..FULL });
            let i = s.usize(t.len() + 1);
            let i = cut(&t, i);
            (t[..i].to_string(), "truncated")
        }
    }
}
