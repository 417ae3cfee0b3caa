//! C31 (structure), C35 (styles): formulas built together with the tree they stand for.

use super::*;
use crate::engine::{Rec, Src};
use crate::umath::DICT;

/// TeX's styles: 0 display, 1 text, 2 script, 3 scriptscript.
type St = u8;
const D: St = 0;
const T: St = 1;
const S: St = 2;

fn script(s: St) -> St {
    if s <= T { S } else { 3 }
}
fn shrink(s: St) -> St {
    (s + 1).min(3)
}

/// The intended tree: token elements, and elements with their child slots.
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    /// Kind of token, its text, its style.
    Tok(&'static str, String, St),
    El(String, Vec<Vec<E>>),
}

fn show(es: &[E], styles: bool) -> String {
    es.iter()
        .map(|e| match e {
            E::Tok(k, t, s) if styles => format!("{k}:{t}:{}", ["D", "T", "S", "SS"].get(*s as usize).unwrap_or(&"(display in small print)")),
            E::Tok(k, t, _) => format!("{k}:{t}"),
            E::El(n, v) => format!("{n}({})", v.iter().map(|x| show(x, styles)).collect::<Vec<_>>().join(" ; ")),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn movable(mo: &El) -> bool {
    match mo.attr("movablelimits") {
        Some(v) => v == "true",
        None => {
            let t = mo.text();
            let c = t.chars().next().unwrap_or(' ') as u32;
            DICT.iter().any(|d| d.0 <= c && c <= d.1 && d.3 == "prefix" && d.2 == 'J')
        }
    }
}

/// What the output says: state is (displaystyle, scriptlevel).
fn read(e: &El, ds: bool, lv: u32, out: &mut Vec<E>) -> Result<(), String> {
    let (mut ds, mut lv) = (ds, lv);
    if e.name == "mtable" {
        ds = false;
    }
    match e.attr("displaystyle") {
        Some("true") => ds = true,
        Some("false") => ds = false,
        Some(x) => return Err(format!("displaystyle {x}")),
        None => {}
    }
    if let Some(v) = e.attr("scriptlevel") {
        let n: u32 = v.trim_start_matches('+').parse().map_err(|_| format!("scriptlevel {v}"))?;
        lv = if v.starts_with('+') { lv + n } else { n };
    }
    let st = match (ds, lv) {
        (true, 0) => 0,
        (false, 0) => 1,
        (false, 1) => 2,
        (false, _) => 3,
        // Display style in small print, which TeX does not have.
        (true, _) => 9,
    };
    let kids: Vec<&El> = e.els().collect();
    let all = |ds, lv| -> Result<Vec<E>, String> {
        let mut v = vec![];
        for k in &kids {
            read(k, ds, lv, &mut v)?;
        }
        Ok(v)
    };
    let one = |i: usize, ds, lv| -> Result<Vec<E>, String> {
        let mut v = vec![];
        let Some(k) = kids.get(i) else { return Err(format!("{} has no child {i}", e.name)) };
        read(k, ds, lv, &mut v)?;
        Ok(v)
    };
    let n = e.name.as_str();
    match n {
        "mi" | "mn" => {
            let k = if n == "mi" { "mi" } else { "mn" };
            for c in e.text().chars() {
                out.push(E::Tok(k, c.to_string(), st));
            }
        }
        // What stands for nothing.
        "mo" if e.text() == "\u{2063}" => {}
        "mo" => out.push(E::Tok("mo", e.text(), st)),
        "mtext" => out.push(E::Tok("mtext", e.text(), st)),
        "mspace" => {}
        "mrow" | "mstyle" | "math" => {
            if e.attr("style").is_some_and(|s| s.starts_with("math-shift")) {
                out.push(E::El("cramped".into(), vec![all(ds, lv)?]));
                return Ok(());
            }
            if let Some(c) = e.attr("style").and_then(|s| s.strip_prefix("color:")) {
                out.push(E::El(c.trim_end_matches(';').to_string(), vec![all(ds, lv)?]));
                return Ok(());
            }
            let v = all(ds, lv)?;
            // Delimiters that stretch with what is between them.
            let fence = |k: &&El| k.name == "mo" && k.attr("stretchy") != Some("false") && k.attr("minsize").is_none() && !(k.text() == "\u{2063}" && k.attr("lspace").is_some());
            if kids.len() > 1 && e.name == "mrow" && fence(&kids[0]) && fence(&kids[kids.len() - 1]) && is_delim(&kids[0].text()) && is_delim(&kids[kids.len() - 1].text()) {
                let name = format!("fence{}{}", kids[0].text(), kids[kids.len() - 1].text()).replace('\u{2063}', ".");
                out.push(E::El(name, vec![v]));
            } else {
                out.extend(v);
            }
        }
        "mfrac" => {
            let l = if ds { lv } else { lv + 1 };
            let name = if e.attr("linethickness") == Some("0") { "stack" } else { "mfrac" };
            out.push(E::El(name.into(), vec![one(0, false, l)?, one(1, false, l)?]));
        }
        "mroot" => out.push(E::El("mroot".into(), vec![one(0, ds, lv)?, one(1, false, lv + 2)?])),
        "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" => {
            let accent = e.attr("accent") == Some("true") || e.attr("accentunder") == Some("true");
            let side = n.starts_with('m') && !n.starts_with("ms") && !ds && super::spacing::core_op(kids.first().ok_or("no base")?).is_some_and(movable);
            let name = match n {
                "munder" if side => "msub",
                "mover" if side => "msup",
                "munderover" if side => "msubsup",
                _ if accent => if n == "mover" { "accent" } else { "underaccent" },
                n => n,
            };
            let mut v = vec![one(0, ds, lv)?];
            for i in 1..kids.len() {
                v.push(one(i, false, if accent { lv } else { lv + 1 })?);
            }
            out.push(scripted(name, v));
        }
        "mmultiscripts" => {
            let mut v = vec![one(0, ds, lv)?];
            for (i, k) in kids.iter().enumerate().skip(1) {
                v.push(if k.name == "mprescripts" { vec![E::Tok("mo", "|pre|".into(), 0)] } else { one(i, false, lv + 1)? });
            }
            out.push(E::El(n.into(), v));
        }
        "menclose" => {
            let m = e.attr("notation").unwrap_or("").to_string();
            out.push(E::El(m, vec![all(ds, lv)?]));
        }
        "mpadded" => {
            if e.attr("voffset").is_some() || e.attr("width").is_some() || e.attr("height").is_some() {
                let k: Vec<String> = e.attrs.iter().filter(|a| a.0 != "style").map(|a| format!("{}={}", a.0, a.1)).collect();
                out.push(E::El(format!("mpadded {}", k.join(" ")), vec![all(ds, lv)?]));
            } else {
                out.extend(all(ds, lv)?);
            }
        }
        _ => out.push(E::El(n.into(), vec![all(ds, lv)?])),
    }
    Ok(())
}

/// Opening and closing delimiters as written, and what they are.
const DELIMS: &[(&str, &str)] = &[
    ("(", "("), (")", ")"), ("[", "["), ("]", "]"), ("\\{", "{"), ("\\}", "}"), ("|", "|"), ("\\|", "‖"), ("\\langle ", "⟨"), ("\\rangle ", "⟩"),
    ("\\lfloor ", "⌊"), ("\\rfloor ", "⌋"), ("\\lceil ", "⌈"), ("\\rceil ", "⌉"), ("/", "/"), ("\\backslash ", "\\"), (".", "\u{2063}"),
    ("\\uparrow ", "↑"), ("\\Downarrow ", "⇓"), ("\\updownarrow ", "↕"), ("\\lvert ", "|"), ("\\rVert ", "‖"), ("\\lgroup ", "⟮"), ("\\rgroup ", "⟯"),
    ("\\lmoustache ", "⎰"), ("\\lbrace ", "{"), ("\\rbrack ", "]"), ("\\ulcorner ", "⌜"), ("\\lrcorner ", "⌟"), ("⟦", "⟦"),
];

fn is_delim(t: &str) -> bool {
    DELIMS.iter().any(|d| d.1 == t)
}

/// Scripts after prescripts are one with them.
fn scripted(name: &str, mut v: Vec<Vec<E>>) -> E {
    if let ([E::El(n, w)], "msub" | "msup" | "msubsup") = (&v[0][..], name)
        && n == "mmultiscripts"
        && w.get(1).is_some_and(|x| matches!(&x[..], [E::Tok(_, t, _)] if t == "|pre|"))
    {
        let mut x = w.clone();
        let sub = if name == "msup" { vec![] } else { v.remove(1) };
        let sup = if name == "msub" { vec![] } else { v.remove(1) };
        x.splice(1..1, [sub, sup]);
        return E::El("mmultiscripts".into(), x);
    }
    E::El(name.into(), v)
}

/// Text and what is made of text does not count beside an operator.
fn blank(e: &E) -> bool {
    match e {
        E::Tok(k, ..) => *k == "mtext",
        E::El(n, v) => (n.starts_with('#') || n.starts_with("mpadded") || n == "mphantom" || n == "cramped") && v.iter().flatten().all(blank),
    }
}

/// Whether it is built around an operator whose limits move to the side in text: what is set over
/// or under it moves as well, see the known findings.
fn moves(v: &[E]) -> bool {
    let v: Vec<E> = v.iter().filter(|e| !blank(e)).cloned().collect();
    match &v[..] {
        [E::Tok("mo", t, _)] => ["∑", "∏", "⋃", "∐", "⨁", "lim", "max", "abc", "abd", "sup", "gcd", "⅀", "⟗", "⨝", "det", "Pr", "⋀", "⨆", "inf", "min", "lim\u{2009}inf", "lim\u{2009}sup", "inj\u{2009}lim", "proj\u{2009}lim", "arg\u{2009}max", "⨀", "⨄", "⨂", "⋁", "⨞", "⟘", "⋂"].contains(&&t[..]),
        [E::El(_, w)] => moves(&w[0]),
        _ => false,
    }
}

struct G<'a> {
    s: &'a mut Src,
    left: i32,
    /// Constructs whose styles are not TeX's are left out.
    styles: bool,
    marks: u32,
    /// Inside a fraction whose style is not known when its parts are read.
    fixed: u32,
}

fn tok(k: &'static str, t: &str, st: St) -> E {
    E::Tok(k, t.into(), st)
}
fn el(n: &str, v: Vec<Vec<E>>) -> E {
    E::El(n.into(), v)
}

impl G<'_> {
    fn mark(&mut self, st: St) -> (String, E) {
        self.marks += 1;
        if self.s.chance(1, 5) {
            let d = self.s.below(10).to_string();
            return (d.clone(), tok("mn", &d, st));
        }
        let c = crate::r#gen::letter(self.s).to_string();
        (c.clone(), tok("mi", &c, st))
    }

    /// A sequence with the switches that end with it.
    fn seq(&mut self, st: St, depth: u32, lo: usize, hi: usize) -> (String, Vec<E>) {
        let n = self.s.long(lo, hi);
        let (mut t, mut v) = (String::new(), vec![]);
        let mut st = st;
        // The coloured rests that are open, innermost last.
        let mut open: Vec<(String, Vec<E>)> = vec![];
        for _ in 0..n {
            if self.s.chance(1, 14) {
                let (c, x) = self.s.pick(&[("red", "#FF0000"), ("blue", "#0000FF"), ("black", "#000000")]);
                t += &format!("\\color{{{c}}}");
                open.push((x.to_string(), std::mem::take(&mut v)));
            }
            if self.s.chance(1, 14) {
                let i = self.s.below(4) as u8;
                t += ["\\displaystyle ", "\\textstyle ", "\\scriptstyle ", "\\scriptscriptstyle "][i as usize];
                st = i;
            }
            let (a, e) = self.scripted(st, depth);
            if t.ends_with(|c: char| c.is_ascii_digit()) && a.starts_with(|c: char| c.is_ascii_digit()) {
                // Two digits are one number, which takes its scripts as a whole.
                t += "{}";
            }
            t += &a;
            v.extend(e);
        }
        while let Some((c, outer)) = open.pop() {
            let inner = std::mem::replace(&mut v, outer);
            v.push(E::El(c, vec![inner]));
        }
        (t, v)
    }

    /// An argument in braces, or a single character.
    fn arg(&mut self, st: St, depth: u32) -> (String, Vec<E>) {
        if self.s.chance(1, 6) {
            let (t, e) = self.mark(st);
            return (format!(" {t} "), vec![e]);
        }
        let (t, v) = self.seq(st, depth.saturating_sub(1), 0, 4);
        (format!("{{{t}}}"), v)
    }

    fn base(&mut self, st: St, depth: u32) -> (String, Vec<E>) {
        let (t, v) = self.arg(st, depth);
        if st != D && (moves(&v) || t.contains("\\displaylimits")) {
            let (t, e) = self.mark(st);
            return (format!("{{{t}}}"), vec![e]);
        }
        (t, v)
    }

    /// Primes of either direction, also typed as characters: each run is one prime or a row of single ones.
    fn mixed_primes(&mut self, st: St) -> (String, Vec<E>) {
        let mut t = String::new();
        let mut runs: Vec<(bool, usize)> = vec![];
        for _ in 0..self.s.range(1, 5) {
            let (c, n, back) = self.s.pick(&[("'", 1, false), ("'", 1, false), ("′", 1, false), ("″", 2, false), ("‴", 3, false), ("⁗", 4, false), ("‵", 1, true), ("‶", 2, true), ("‷", 3, true)]);
            t += c;
            match runs.last_mut() {
                Some((b, k)) if *b == back => *k += n,
                _ => runs.push((back, n)),
            }
        }
        let mut e = vec![];
        for (back, n) in runs {
            let known: &[&str] = if back { &["‵", "‶", "‷"] } else { &["′", "″", "‴", "⁗"] };
            match known.get(n - 1) {
                Some(p) => e.push(tok("mo", p, st)),
                None => e.extend((0..n).map(|_| tok("mo", known[0], st))),
            }
        }
        (t, e)
    }

    /// One of the two arguments of \sideset: the source, the subscript and the superscript.
    fn side(&mut self, st: St, depth: u32) -> (String, Vec<E>, Vec<E>) {
        if self.s.chance(1, 8) {
            return (self.s.pick(&["'", "{'}"]).into(), vec![], vec![tok("mo", "′", st)]);
        }
        let (sub, sup) = (self.s.chance(3, 4), self.s.chance(3, 4));
        let (a, x) = if sub { self.arg(st, depth) } else { (String::new(), vec![]) };
        let (b, y) = if sup { self.arg(st, depth) } else { (String::new(), vec![]) };
        let a = if sub { format!("_{a}") } else { a };
        let b = if sup { format!("^{b}") } else { b };
        if sup && self.s.chance(1, 6) {
            let (p, mut e) = self.mixed_primes(st);
            e.extend(y);
            return (format!("{{{a}{p}{b}}}"), x, e);
        }
        (if self.s.flip() { format!("{{{a}{b}}}") } else { format!("{{{b}{a}}}") }, x, y)
    }

    /// `lim` is `\limits`, `\nolimits` or nothing; it may stand in front of the scripts or behind any.
    fn scripts(&mut self, base: Vec<E>, st: St, depth: u32, names: [&str; 3], lim: &str) -> (String, Vec<E>) {
        let sst = script(st);
        let kind = self.s.below(5);
        let primes = if names[0] == "msub" && kind != 0 && self.s.chance(1, 4) { (if self.s.chance(1, 8) { self.s.range(5, 40) } else { self.s.range(1, 4) }) as usize } else { 0 };
        let sub = (kind != 1).then(|| self.arg(sst, depth));
        let mut sup = (kind != 0).then(|| self.arg(sst, depth));
        let mut t = String::new();
        let mut supe = vec![];
        let mut pt = "'".repeat(primes);
        if primes > 0 && self.s.chance(1, 3) {
            let (p, e) = self.mixed_primes(sst);
            pt = p;
            supe.extend(e);
            if self.s.flip() {
                sup = None;
            }
        } else if primes > 0 {
            if primes < 5 {
                supe.push(tok("mo", ["", "′", "″", "‴", "⁗"][primes], sst));
            } else {
                supe.extend((0..primes).map(|_| tok("mo", "′", sst)));
            }
            if self.s.flip() {
                sup = None;
            }
        }
        let st_of = |o: &Option<(String, Vec<E>)>, c: &str| o.as_ref().map_or(String::new(), |x| format!("{c}{}", x.0));
        let (a, b) = (st_of(&sub, "_"), format!("{pt}{}", st_of(&sup, "^")));
        // Primes and the superscript after them belong together.
        let (a, b) = if self.s.flip() { (a, b) } else { (b, a) };
        let at = if lim.is_empty() { 0 } else { self.s.weighted(&[4, 1, 1]) };
        for (i, x) in ["", &a, &b].into_iter().enumerate() {
            t += x;
            if i == at {
                t += lim;
            }
        }
        if let Some((_, e)) = sup {
            supe.extend(e);
        }
        let has_sup = kind != 0;
        let e = match (sub, has_sup) {
            (Some((_, b)), true) => scripted(names[2], vec![base, b, supe]),
            (Some((_, b)), false) => scripted(names[0], vec![base, b]),
            (None, _) => scripted(names[1], vec![base, supe]),
        };
        (t, vec![e])
    }

    fn scripted(&mut self, st: St, depth: u32) -> (String, Vec<E>) {
        self.left -= 1;
        if self.left < 0 || depth == 0 {
            let (t, e) = self.mark(st);
            return (t, vec![e]);
        }
        // Operators whose scripts have places of their own.
        if self.s.chance(1, 6) {
            let (o, x, movable) = self.s.pick(&[
                ("\\sum ", "∑", true), ("\\prod ", "∏", true), ("\\int ", "∫", false), ("\\oint ", "∮", false), ("\\bigcup ", "⋃", true), ("\\iint ", "∬", false),
                ("\\lim ", "lim", true), ("\\max ", "max", true), ("\\sin ", "sin", false), ("\\log ", "log", false), ("\\operatorname{ab}", "ab", false),
                ("\\operatorname*{abc}", "abc", true), ("\\operatornamewithlimits{abd}", "abd", true), ("\\coprod ", "∐", true), ("\\sup ", "sup", true), ("\\bigoplus ", "⨁", true), ("\\gcd ", "gcd", true),
                ("∑", "∑", true), ("∫", "∫", false), ("⅀", "⅀", true), ("⟗", "⟗", true), ("⨝", "⨝", true), ("\\det ", "det", true), ("\\Pr ", "Pr", true), ("\\arg ", "arg", false),
                ("\\bigwedge ", "⋀", true), ("⨆", "⨆", true), ("\\iiint ", "∭", false), ("∲", "∲", false), ("\\ker ", "ker", false), ("\\inf ", "inf", true),
                ("\\min ", "min", true), ("\\liminf ", "lim\u{2009}inf", true), ("\\limsup ", "lim\u{2009}sup", true), ("\\injlim ", "inj\u{2009}lim", true), ("\\projlim ", "proj\u{2009}lim", true), ("\\argmax ", "arg\u{2009}max", true), ("\\hom ", "hom", false), ("\\deg ", "deg", false), ("\\dim ", "dim", false), ("\\exp ", "exp", false), ("\\ln ", "ln", false),
                ("\\bigodot ", "⨀", true), ("\\biguplus ", "⨄", true), ("\\bigotimes ", "⨂", true), ("\\bigsqcup ", "⨆", true), ("\\bigvee ", "⋁", true), ("⨞", "⨞", true), ("⟘", "⟘", true), ("⋂", "⋂", true), ("∯", "∯", false), ("⨌", "⨌", false), ("∱", "∱", false),
            ]);
            let (l, places) = match self.s.below(4) {
                0 => ("\\limits ", true),
                1 => ("\\nolimits ", false),
                2 if self.s.flip() => ("\\displaylimits ", st == D),
                _ => ("", movable && st == D),
            };
            let places = if l.is_empty() { movable && st == D } else { places };
            let names = if places { ["munder", "mover", "munderover"] } else { ["msub", "msup", "msubsup"] };
            let base = vec![tok("mo", x, st)];
            if l.is_empty() && self.s.chance(1, 3) {
                return (o.into(), base);
            }
            // The last one counts.
            let l = if !l.is_empty() && self.s.chance(1, 8) { format!("{}{l}", self.s.pick(&["\\limits", "\\nolimits", "\\displaylimits"])) } else { l.to_string() };
            let (t, e) = self.scripts(base, st, depth, names, &l);
            return (format!("{o}{t}"), e);
        }
        let (t, e) = self.atom(st, depth);
        if self.s.chance(1, 3) {
            let (x, e) = self.scripts(e, st, depth, ["msub", "msup", "msubsup"], "");
            return (t + &x, e);
        }
        (t, e)
    }

    fn fenced(&mut self, l: &str, r: &str, v: Vec<E>, st: St) -> E {
        let mut w = vec![tok("mo", l, st)];
        w.extend(v);
        w.push(tok("mo", r, st));
        w.retain(|x| !matches!(x, E::Tok(_, t, _) if t == "\u{2063}"));
        el(&format!("fence{l}{r}").replace('\u{2063}', "."), vec![w])
    }

    fn atom(&mut self, st: St, depth: u32) -> (String, Vec<E>) {
        let d = depth - 1;
        match self.s.below(32) {
            0..=3 => {
                let (t, e) = self.mark(st);
                (t, vec![e])
            }
            4 | 5 => {
                let known = !self.styles || self.fixed == 0;
                let (c, fs) = match self.s.below(4) {
                    1 if known => ("\\dfrac", D),
                    2 if known => ("\\tfrac", T),
                    3 => ("\\cfrac", D),
                    _ => ("\\frac", st),
                };
                let (a, x) = self.arg(shrink(fs), depth);
                let (b, y) = self.arg(shrink(fs), depth);
                (format!("{c}{a}{b}"), vec![el("mfrac", vec![x, y])])
            }
            6 => {
                let known = !self.styles || self.fixed == 0;
                let (c, fs) = match self.s.below(3) {
                    1 if known => ("\\dbinom", D),
                    2 if known => ("\\tbinom", T),
                    _ => ("\\binom", st),
                };
                let (a, x) = self.arg(shrink(fs), depth);
                let (b, y) = self.arg(shrink(fs), depth);
                (format!("{c}{a}{b}"), vec![self.fenced("(", ")", vec![el("stack", vec![x, y])], 9)])
            }
            7 => {
                let (a, x) = self.arg(st, depth);
                (format!("\\sqrt{a}"), vec![el("msqrt", vec![x])])
            }
            8 => {
                let (a, x) = self.seq(3, d, 0, 3);
                let (b, y) = self.arg(st, depth);
                (format!("\\sqrt[{{{a}}}]{b}"), vec![el("mroot", vec![y, x])])
            }
            9 => {
                let (a, x) = self.arg(script(st), depth);
                let (b, y) = self.base(st, depth);
                let (c, n) = self.s.pick(&[("\\overset", "mover"), ("\\underset", "munder"), ("\\stackrel", "mover")]);
                (format!("{c}{a}{b}"), vec![el(n, vec![y, x])])
            }
            10 | 11 => {
                let (a, x) = self.base(st, depth);
                let (c, n, o) = self.s.pick(&[
                    ("\\hat", "accent", "ˆ"), ("\\bar", "accent", "¯"), ("\\vec", "accent", "\u{20d7}"), ("\\dot", "accent", "˙"), ("\\ddot", "accent", "¨"), ("\\acute", "accent", "´"),
                    ("\\overrightarrow", "accent", "→"), ("\\overleftarrow", "accent", "←"), ("\\underleftarrow", "underaccent", "←"),
                    ("\\overline", "accent", "\u{332}"), ("\\underline", "underaccent", "\u{332}"), ("\\widehat", "accent", "\u{302}"),
                ]);
                (format!("{c}{a}"), vec![el(n, vec![x, vec![tok("mo", o, 9)]])])
            }
            12 => {
                let (a, x) = self.base(st, depth);
                let over = self.s.flip();
                let (c, n, o) = if over {
                    self.s.pick(&[("\\overbrace", "accent", "⏞"), ("\\overbracket", "accent", "⎴"), ("\\overparen", "accent", "⏜")])
                } else {
                    self.s.pick(&[("\\underbrace", "underaccent", "⏟"), ("\\underbracket", "underaccent", "⎵")])
                };
                let e = vec![el(n, vec![x, vec![tok("mo", o, 9)]])];
                if self.s.flip() {
                    let (b, y) = self.arg(script(st), depth);
                    // A script more would go with the brace.
                    return (format!("{{{c}{a}{}{b}}}", if over { '^' } else { '_' }), vec![el(if over { "mover" } else { "munder" }, vec![e, y])]);
                }
                (format!("{{{c}{a}}}"), e)
            }
            13 | 14 => {
                let (lt, l) = self.s.pick(DELIMS);
                let (rt, r) = self.s.pick(DELIMS);
                let (mut t, mut v) = self.seq(st, d, 0, 3);
                while self.s.chance(1, 4) {
                    let (mt, m) = self.s.pick(DELIMS);
                    let (mt, m) = if mt == "." { ("|", "|") } else { (mt, m) };
                    let (b, w) = self.seq(st, d, 0, 2);
                    // A switch before goes on.
                    if t.contains("\\color") || t.contains("style ") {
                        break;
                    }
                    t += &format!("\\middle{mt}{b}");
                    if m != "\u{2063}" {
                        v.push(tok("mo", m, st));
                    }
                    v.extend(w);
                }
                (format!("\\left{lt}{t}\\right{rt}"), vec![self.fenced(l, r, v, st)])
            }
            15 => {
                let (t, v) = self.seq(st, d, 0, 4);
                (format!("{{{t}}}"), v)
            }
            16 => {
                self.fixed += 1;
                let (a, x) = self.seq(shrink(st), d, 1, 3);
                self.fixed -= 1;
                let (b, y) = self.seq(shrink(st), d, 1, 3);
                let (c, l, r, n) = self.s.pick(&[("\\over ", "", "", "mfrac"), ("\\choose ", "(", ")", "stack"), ("\\brack ", "[", "]", "stack"), ("\\atop ", "", "", "stack"), ("\\brace ", "{", "}", "stack")]);
                let f = el(n, vec![x, y]);
                let e = if l.is_empty() { f } else { self.fenced(l, r, vec![f], st) };
                (format!("{{{a}{c}{b}}}"), vec![e])
            }
            17 => {
                let w = self.s.pick(&["ab", "x y", "if", "1+1"]);
                (format!("\\text{{{w}}}"), vec![tok("mtext", &w.replace(' ', "\u{a0}"), st)])
            }
            18 => {
                let (a, x) = self.arg(st, depth);
                let (c, n) = self.s.pick(&[("red", "#FF0000"), ("blue", "#0000FF"), ("white", "#FFFFFF")]);
                (format!("\\textcolor{{{c}}}{a}"), vec![el(n, vec![x])])
            }
            19 => {
                let (a, x) = self.arg(st, depth);
                let (c, n) = self.s.pick(&[("\\phantom", "mphantom"), ("\\cancel", "updiagonalstrike"), ("\\bcancel", "downdiagonalstrike"), ("\\xcancel", "updiagonalstrike downdiagonalstrike"), ("\\angl", "actuarial"), ("\\phase", "phasorangle")]);
                (format!("{c}{a}"), vec![el(n, vec![x])])
            }
            20 => {
                let (a, x) = self.arg(if self.styles { D } else { st }, depth);
                if self.styles && st != D {
                    return (format!("\\text{{{}}}", "z"), vec![tok("mtext", "z", st)]);
                }
                (format!("\\boxed{a}"), vec![el("box", vec![x])])
            }
            21..=23 => self.table(st, d),
            24 => {
                let (a, x) = self.arg(script(st), depth);
                let (b, y) = self.arg(script(st), depth);
                let (c, z) = self.arg(st, depth);
                (format!("{{\\prescript{a}{b}{c}}}"), vec![el("mmultiscripts", vec![z, vec![tok("mo", "|pre|", 0)], y, x])])
            }
            25 => {
                let sst = script(st);
                let (l, a, b) = self.side(sst, depth);
                let (r, c, d) = self.side(sst, depth);
                let (o, x) = self.s.pick(&[("\\sum ", "∑"), ("\\prod ", "∏"), ("\\bigcup ", "⋃"), ("\\int ", "∫")]);
                let t = format!("\\sideset{l}{r}{o}");
                let e = vec![el("mmultiscripts", vec![vec![tok("mo", x, st)], c, d, vec![tok("mo", "|pre|", 0)], a, b])];
                if self.fixed > 0 || self.s.flip() {
                    return (format!("{{{t}}}"), e);
                }
                let (l, places) = self.s.pick(&[("", st == D), ("", st == D), ("\\limits ", true), ("\\nolimits ", false), ("\\displaylimits ", st == D)]);
                let names = if places { ["munder", "mover", "munderover"] } else { ["msub", "msup", "msubsup"] };
                let (u, e) = self.scripts(e, st, depth, names, l);
                (format!("{{{t}{u}}}"), e)
            }
            26 => {
                // The style of the fraction, as a number.
                let i = self.s.below(5) as usize;
                let fs = if i == 4 { st } else { i as u8 };
                let (lt, l) = self.s.pick(&[("(", "("), ("[", "["), ("\\{", "{"), ("", "\u{2063}")]);
                let (rt, r) = self.s.pick(&[(")", ")"), ("]", "]"), ("|", "|"), ("", "\u{2063}")]);
                let (th, n) = self.s.pick(&[("", "mfrac"), ("1pt", "mfrac"), ("0pt", "stack")]);
                // A script style is not known to the parts (see the known findings).
                let unknown = u32::from(i == 2 || i == 3);
                self.fixed += unknown;
                let (a, x) = self.arg(shrink(fs), depth);
                let (b, y) = self.arg(shrink(fs), depth);
                self.fixed -= unknown;
                let f = el(n, vec![x, y]);
                (
                    format!("\\genfrac{{{lt}}}{{{rt}}}{{{th}}}{{{}}}{a}{b}", ["0", "1", "2", "3", ""][i]),
                    vec![self.fenced(l, r, vec![f], fs)],
                )
            }
            27 => {
                let (c, o) = self.s.pick(&[("=", "="), ("+", "+"), ("<", "<"), (",", ","), ("\\to ", "→"), ("(", "("), (")", ")"), ("\\cdot ", "⋅"), ("\\not=", "≠"), ("-", "−"), ("\\cdots ", "⋯"), ("\\bigl[", "["), ("\\Big|", "|")]);
                (format!("{c}"), vec![tok("mo", o, st)])
            }
            29 => {
                // The style as a number, if there is one.
                let i = self.s.below(5) as usize;
                let (a, x) = self.arg(if i == 4 { st } else { i as u8 }, depth);
                let o = ["[\\displaystyle]", "[\\textstyle ]", "[\\scriptstyle]", "[ \\scriptscriptstyle]", ""][i];
                (format!("\\cramped{o}{a}"), vec![el("cramped", vec![x])])
            }
            28 if self.fixed == 0 => {
                // One of four, by style.
                let v: Vec<_> = (0..4u8).map(|i| self.seq(i, d, 0, 2)).collect();
                let t = format!("\\mathchoice{{{}}}{{{}}}{{{}}}{{{}}}", v[0].0, v[1].0, v[2].0, v[3].0);
                let x = v[st as usize].1.clone();
                (format!("{{{t}}}"), x)
            }
            _ => {
                let (a, x) = self.arg(st, depth);
                let c = self.s.pick(&["\\mathord", "\\mathbin", "\\mathrel", "\\mathop", "\\mathinner", "\\mathopen", "\\mathclose", "\\mathpunct"]);
                (format!("{{{c}{a}}}"), x)
            }
        }
    }

    fn table(&mut self, st: St, d: u32) -> (String, Vec<E>) {
        let (b, n, l, r, cs, maxc) = self.s.pick(&[
            ("matrix", "", "", "", T, 3usize), ("pmatrix", "", "(", ")", T, 3), ("bmatrix", "", "[", "]", T, 3), ("Bmatrix", "", "{", "}", T, 3), ("vmatrix", "", "|", "|", T, 3),
            ("Vmatrix", "", "‖", "‖", T, 3), ("cases", "", "{", "\u{2063}", T, 2), ("rcases", "", "\u{2063}", "}", T, 2), ("dcases", "", "{", "\u{2063}", D, 2),
            ("array", "{ccc}", "", "", T, 3), ("array", "{c|rl}", "", "", T, 3), ("aligned", "", "", "", D, 3), ("gathered", "", "", "", D, 1), ("subarray", "{c}", "", "", S, 1),
        ]);
        let rows = self.s.long(1, 3);
        let mut t = format!("\\begin{{{b}}}{n}");
        let mut v = vec![];
        for i in 0..rows {
            let cols = self.s.range(1, maxc as u64) as usize;
            let mut w = vec![];
            for j in 0..cols {
                let (c, e) = self.seq(cs, d, 0, 2);
                if j > 0 {
                    t += "&";
                }
                t += &c;
                w.push(el("mtd", vec![e]));
            }
            if i + 1 < rows {
                t += "\\\\ ";
            }
            v.push(el("mtr", vec![w]));
        }
        t += &format!("\\end{{{b}}}");
        let e = el("mtable", vec![v]);
        if l.is_empty() { (t, vec![e]) } else { (t, vec![self.fenced(l, r, vec![e], st)]) }
    }
}

fn same(a: &[E], b: &[E], styles: bool) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| match (a, b) {
            (E::Tok(k, t, s), E::Tok(l, u, v)) => k == l && t == u && (!styles || s == v || *s == 9),
            (E::El(n, v), E::El(m, w)) => n == m && v.len() == w.len() && v.iter().zip(w).all(|(a, b)| same(a, b, styles)),
            _ => false,
        })
}

/// Formulas the generator leaves out, with what they stand for (see the known findings).
#[rustfmt::skip]
const PROBES: &[(&str, MathDisplay, &str)] = &[
    ("\\overset{a}{\\sum}", MathDisplay::Inline, "mover(mo:∑:T ; mi:a:S)"),
    ("\\underset{a}{\\bigcup}", MathDisplay::Inline, "munder(mo:⋃:T ; mi:a:S)"),
    ("\\underbrace{\\prod}_a", MathDisplay::Inline, "munder(underaccent(mo:∏:T ; mo:⏟:T) ; mi:a:S)"),
    ("\\mathop{a}_b", MathDisplay::Block, "munder(mi:a:D ; mi:b:S)"),
    ("{\\mathchoice{a}{b}{c}{d}\\over e}", MathDisplay::Inline, "mfrac(mi:c:S ; mi:e:S)"),
    ("{\\dfrac{a}{b}\\over e}", MathDisplay::Inline, "mfrac(mfrac(mi:a:T ; mi:b:T) ; mi:e:S)"),
    ("\\genfrac{}{}{}{2}{\\tfrac{a}{b}}{e}", MathDisplay::Block, "fence..(mfrac(mfrac(mi:a:S ; mi:b:S) ; mi:e:SS))"),
    ("\\boxed{\\sum_a}", MathDisplay::Inline, "box(munder(mo:∑:D ; mi:a:S))"),
    ("\\overset{a}{\\sum}", MathDisplay::Block, "mover(mo:∑:D ; mi:a:S)"),
];

fn check(s: &mut Src, r: &mut Rec, styles: bool) -> Res {
    // The first five are about the structure.
    let i = s.below(5000) as usize;
    if let Some((f, disp, want)) = PROBES.get(i).filter(|_| styles == (i >= 5)) {
        r.input = format!("{} {f}", dshow(*disp));
        r.nontrivial = true;
        r.label("left out by the generator");
        let m = match LatexToMathML::default().convert_with_local_state(f, *disp) {
            Ok(m) => m.mathml,
            Err(e) => return fail("refused", format!("{f}\n{}", e.error_message())),
        };
        let mut got = vec![];
        if read(&parse(&m)?, *disp == MathDisplay::Block, 0, &mut got).is_err() {
            return fail("attribute", m);
        }
        // The property without the styles is the same text without them.
        let w = if styles { want.to_string() } else { [":D", ":T", ":SS", ":S"].iter().fold(want.to_string(), |w, x| w.replace(x, "")) };
        return if show(&got, styles) == w { Ok(()) } else { fail("another structure", format!("{f}\nexpected {w}\ngot      {}", show(&got, styles))) };
    }
    let disp = crate::cfg::disp(s);
    let st = if disp == MathDisplay::Block { D } else { T };
    let left = s.range(4, 24) as i32;
    let mut g = G { s, left, styles, marks: 0, fixed: 0 };
    let (f, want) = g.seq(st, 4, 1, 6);
    r.input = f.clone();
    r.label(dshow(disp));
    let m = match LatexToMathML::default().convert_with_local_state(&f, disp) {
        Ok(m) => m.mathml,
        Err(e) => return fail(format!("refused: {}", crate::engine::norm(&e.error_message())), f),
    };
    let root = parse(&m)?;
    let mut got = vec![];
    if let Err(e) = read(&root, disp == MathDisplay::Block, 0, &mut got) {
        return fail("attribute", format!("{f}\n{e}\n{m}"));
    }
    let n = f.matches(['\\', '^', '_', '{']).count();
    r.nontrivial = n >= 3;
    if same(&want, &got, styles) {
        return Ok(());
    }
    let sig = if styles && same(&want, &got, false) { "another style" } else { "another structure" };
    fail(sig, format!("{} {f}\nexpected {}\ngot      {}\n{}", dshow(disp), show(&want, styles), show(&got, styles), root.show()))
}

fn c31(s: &mut Src, r: &mut Rec) -> Res {
    check(s, r, false)
}

fn c35(s: &mut Src, r: &mut Rec) -> Res {
    check(s, r, true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C31",
            rule: "three constructs, scripts or groups or more",
            quick: 400_000,
            thorough: 10_000_000,
            enumerate: PROBES.len() as u64,
            run: c31,
            assumptions: &[
                "a run of primes has at most forty; scripts are not put on \\overbrace and the like, on \\prescript, \\sideset or \\mathop (they have places of their own), nor on one of two adjacent digits",
                "\\middle. is not supported; the delimiters < and > are not either",
                "an operator with movable limits that stands alone under an accent, a brace, \\overset or \\underset is left out in text style, as is \\mathchoice in a fraction whose style is not known yet (numerator of \\over, \\genfrac in script style): see the known findings",
                "groups, \\mathrel and the like, and invisible operators leave no trace in the intended tree; spacing is the subject of C30",
            ],
        },
        Prop {
            id: "C35",
            rule: "three constructs, scripts or groups or more",
            quick: 400_000,
            thorough: 10_000_000,
            enumerate: PROBES.len() as u64,
            run: c35,
            assumptions: &[
                "a run of primes has at most forty; scripts are not put on \\overbrace and the like, on \\prescript, \\sideset or \\mathop (they have places of their own), nor on one of two adjacent digits",
                "\\middle. is not supported; the delimiters < and > are not either",
                "an operator with movable limits that stands alone under an accent, a brace, \\overset or \\underset is left out in text style, as is \\mathchoice in a fraction whose style is not known yet (numerator of \\over, \\genfrac in script style): see the known findings",
                "the style of stretched fences and accents, which are drawn by the renderer, is not compared; cramping is not expressed in MathML Core",
                "\\dfrac and the like within \\over numerators and \\genfrac in script style, and \\boxed outside of display style, are left out: see the known findings",
            ],
        },
    ]
}
