//! C25–C28: the command-line tool, checked through the built binary.

use super::*;
use crate::cfg::Cfg;
use crate::engine::{Rec, Src, clip, verif_dir};
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn bin() -> PathBuf {
    verif_dir().join("target-ext/debug/mathcore")
}

/// A directory that is removed when the case ends.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!(
            "mcheck-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub struct Out {
    pub code: i32,
    pub out: Vec<u8>,
    pub err: String,
}

/// Run the binary in `cwd`; a run that takes longer than 20 s or prints more than 64 MB failed.
pub fn run_bin(cwd: &Path, args: &[String], stdin: &[u8]) -> Result<Out, Fail> {
    let mut ch = Command::new(bin())
        .args(args)
        .current_dir(cwd)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env("NO_COLOR", "1")
        .spawn()
        .expect("the command-line tool has been built");
    let mut si = ch.stdin.take().unwrap();
    let data = stdin.to_vec();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let o = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = (&mut so).take(64 << 20).read_to_end(&mut v);
        v
    });
    let e = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = (&mut se).take(64 << 20).read_to_end(&mut v);
        v
    });
    let t = Instant::now();
    let mut nap = 200u64;
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") {
            break s;
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            return fail("the tool does not end", format!("{args:?} is still running after 20 s"));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    let _ = w.join();
    let out = o.join().unwrap();
    let err = String::from_utf8_lossy(&e.join().unwrap()).into_owned();
    let Some(code) = st.code() else {
        return fail("the tool was ended by a signal", format!("{args:?}: {st}\n{}", clip(&err, 600)));
    };
    if code == 101 {
        return fail("the tool panicked", format!("{args:?}\n{}", clip(&err, 600)));
    }
    Ok(Out { code, out, err })
}

/// The delimiters, as the user gives them.
#[derive(Clone, Debug)]
pub struct Delims {
    pub inline: (String, String),
    pub block: (String, String),
    pub escaped: bool,
}

impl Delims {
    fn args(&self, s: &mut Src, v: &mut Vec<String>) {
        let i = &self.inline;
        if i.0 != i.1 || s.chance(1, 4) {
            v.push(format!("--inline-open={}", i.0));
            v.push(format!("--inline-close={}", i.1));
        } else if i.0 != "$" || s.chance(1, 4) {
            v.push(format!("--inline-del={}", i.0));
        }
        let b = &self.block;
        if b.0 != b.1 || s.chance(1, 4) {
            v.push(format!("--block-open={}", b.0));
            v.push(format!("--block-close={}", b.1));
        } else if b.0 != "$$" || s.chance(1, 4) {
            v.push(format!("--block-del={}", b.0));
        }
        if self.escaped {
            v.push("--ignore-escaped-delim".into());
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Seg {
    Text(String),
    Formula(String, MathDisplay),
}

/// What is wrong with the delimiters, and where (byte offsets).
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Unclosed(usize),
    Nested(usize),
    Mismatched(usize, usize),
}

/// The reference: look at every position in turn. `Err(None)`: the reading of this document is
/// open (an escaped delimiter overlaps another one).
#[allow(clippy::type_complexity)]
pub fn split(doc: &str, d: &Delims) -> Result<(Vec<Seg>, Option<Bad>), ()> {
    let b = doc.as_bytes();
    let escaped = |p: usize, lo: usize| d.escaped && p > lo && b[p - 1] == b'\\';
    // The nearest of the two at or after `lo`, before `hi`.
    let next = |lo: usize, hi: usize, i: &str, k: &str| -> Option<(MathDisplay, usize)> {
        for p in lo..hi {
            if escaped(p, lo) {
                continue;
            }
            let t = &b[p..hi];
            if t.starts_with(k.as_bytes()) {
                return Some((MathDisplay::Block, p));
            }
            if t.starts_with(i.as_bytes()) {
                return Some((MathDisplay::Inline, p));
            }
        }
        None
    };
    if d.escaped {
        let all = [&d.inline.0, &d.inline.1, &d.block.0, &d.block.1];
        for p in 1..b.len() {
            if b[p - 1] == b'\\' {
                for x in all {
                    if b[p..].starts_with(x.as_bytes()) {
                        for q in p + 1..p + x.len() {
                            if all.iter().any(|y| b[q..].starts_with(y.as_bytes())) {
                                return Err(());
                            }
                        }
                        // Does the formula before end right here, in the backslash?
                    }
                }
            }
        }
        if all.iter().any(|x| x.ends_with('\\')) {
            return Err(());
        }
    }
    let mut v = Vec::new();
    let mut pos = 0;
    loop {
        let Some((ty, open)) = next(pos, b.len(), &d.inline.0, &d.block.0) else {
            v.push(Seg::Text(doc[pos..].into()));
            return Ok((v, None));
        };
        v.push(Seg::Text(doc[pos..open].into()));
        let del = |t: MathDisplay| if t == MathDisplay::Inline { &d.inline } else { &d.block };
        let start = open + del(ty).0.len();
        let Some((ct, close)) = next(start, b.len(), &d.inline.1, &d.block.1) else {
            return Ok((v, Some(Bad::Unclosed(open))));
        };
        if d.inline.1 != d.block.1 && ct != ty {
            return Ok((v, Some(Bad::Mismatched(open, close))));
        }
        if let Some((_, p)) = next(start, close, &d.inline.0, &d.block.0) {
            return Ok((v, Some(Bad::Nested(p))));
        }
        v.push(Seg::Formula(doc[start..close].into(), ty));
        pos = close + del(ct).1.len();
    }
}

/// The character references that stand for the characters reserved in HTML.
pub const REFS: &[(&str, char)] = &[
    ("&lt;", '<'),
    ("&gt;", '>'),
    ("&amp;", '&'),
    ("&quot;", '"'),
    ("&apos;", '\''),
    ("&#60;", '<'),
    ("&#62;", '>'),
    ("&#38;", '&'),
    ("&#34;", '"'),
    ("&#39;", '\''),
];

/// Decode the references; an ampersand directly after another one starts none.
pub fn decode(t: &str) -> String {
    let mut o = String::new();
    let mut r = t;
    while let Some(c) = r.chars().next() {
        if c == '&' {
            if let Some((n, x)) = REFS.iter().find(|(n, _)| r.starts_with(n)) {
                o.push(*x);
                r = &r[n.len()..];
                continue;
            }
            if r[1..].starts_with('&') {
                o.push_str("&&");
                r = &r[2..];
                continue;
            }
        }
        o.push(c);
        r = &r[c.len_utf8()..];
    }
    o
}

fn line_col(doc: &str, at: usize) -> (usize, usize) {
    let before = &doc[..at];
    let line = before.matches('\n').count() + 1;
    let col = before.rsplit('\n').next().unwrap().chars().count() + 1;
    (line, col)
}

/// What the tool is to print for the document, or the error.
pub enum Want {
    Doc(String),
    Delimiter(Bad),
    Latex(String),
}

pub fn expected(segs: &[Seg], bad: Option<Bad>, conv: &mut LatexToMathML, go_on: bool) -> Want {
    let mut o = String::new();
    for s in segs {
        match s {
            Seg::Text(t) => o.push_str(t),
            Seg::Formula(f, d) => {
                let f = decode(f);
                match conv.convert_with_global_state(&f, *d) {
                    Ok(r) => o.push_str(&r.mathml),
                    Err(e) if go_on => o.push_str(&e.to_html(&f, *d, None)),
                    Err(e) => return Want::Latex(e.error_message()),
                }
            }
        }
    }
    match bad {
        Some(b) => Want::Delimiter(b),
        None => Want::Doc(o),
    }
}

/// Only the words of a report, so that a message wrapped or boxed differently still compares.
fn words(t: &str) -> String {
    t.chars().filter(|c| c.is_alphanumeric()).collect()
}

pub fn check_out(doc: &str, want: &Want, out: &Out, newline: bool, silent: bool) -> Result<(), Fail> {
    match want {
        Want::Doc(x) => {
            if out.code != 0 {
                return fail(
                    format!("exit code {} for a good document", out.code),
                    clip(&out.err, 800),
                );
            }
            let mut x = if silent { String::new() } else { x.clone() };
            if newline && !silent {
                x.push('\n');
            }
            if out.out != x.as_bytes() {
                let got = String::from_utf8_lossy(&out.out);
                let at = got.bytes().zip(x.bytes()).take_while(|(a, b)| a == b).count();
                let lo = at.saturating_sub(60);
                let cut = |t: &str| {
                    String::from_utf8_lossy(&t.as_bytes()[lo.min(t.len())..(at + 300).min(t.len())])
                        .into_owned()
                };
                return fail(
                    "the document is not replaced as expected",
                    format!("differs at byte {at}\nexpected …{}\nprinted  …{}", cut(&x), cut(&got)),
                );
            }
        }
        Want::Delimiter(b) => {
            if out.code != 2 {
                return fail(
                    format!("exit code {} for bad delimiters", out.code),
                    format!("{b:?} expected\n{}", clip(&out.err, 600)),
                );
            }
            if !out.out.is_empty() {
                return fail("output in spite of an error", String::from_utf8_lossy(&out.out));
            }
            let (kind, places) = match b {
                Bad::Unclosed(p) => ("unclosed", vec![*p]),
                Bad::Nested(p) => ("nested", vec![*p]),
                Bad::Mismatched(p, q) => ("mismatched", vec![*p, *q]),
            };
            let low = out.err.to_lowercase();
            if !low.contains(kind) {
                return fail(
                    format!("not reported as {kind}"),
                    format!("{b:?} expected, but: {}", clip(&out.err, 600)),
                );
            }
            let mut rest = low.as_str();
            for p in places {
                let (l, c) = line_col(doc, p);
                let t = format!("line {l}, column {c}");
                match rest.find(&t) {
                    Some(i) if !rest[i + t.len()..].starts_with(|c: char| c.is_ascii_digit()) => {
                        rest = &rest[i + t.len()..];
                    }
                    _ => {
                        return fail(
                            "wrong position of a bad delimiter",
                            format!("{t} expected ({b:?}), but: {}", clip(&out.err, 600)),
                        );
                    }
                }
            }
        }
        Want::Latex(m) => {
            if out.code != 2 {
                return fail(
                    format!("exit code {} for a bad formula", out.code),
                    format!("{m}\n{}", clip(&out.err, 600)),
                );
            }
            if !out.out.is_empty() {
                return fail("output in spite of an error", String::from_utf8_lossy(&out.out));
            }
            if !words(&out.err).contains(&words(m)) {
                return fail(
                    "the formula's error is not reported",
                    format!("{m} expected, but: {}", clip(&out.err, 800)),
                );
            }
        }
    }
    Ok(())
}

const PAIRS: &[(&str, &str, &str, &str)] = &[
    ("$", "$", "$$", "$$"),
    ("$", "$", "$$", "$$"),
    ("\\(", "\\)", "\\[", "\\]"),
    ("$", "$", "\\[", "\\]"),
    ("\\(", "\\)", "$$", "$$"),
    ("[m]", "[/m]", "[mm]", "[/mm]"),
    ("<m>", "</m>", "<m>!", "!</m>"),
    ("§", "§", "¶", "¶"),
    ("é€", "€é", "€", "é"),
    ("$$", "$$", "$", "$"),
    ("`", "`", "```", "```"),
    ("{{", "}}", "{{{", "}}}"),
    ("@@", "@@", "@@@@", "@@@@"),
    ("aa", "bb", "ab", "ba"),
    ("(", ")", "[", ")"),
    ("%", "$", "%%", "$$"),
    ("<span class=\"math inline\">", "</span>", "<span class=\"math display\">", "</span>"),
    ("\n", "\n", "\n\n", "\n\n"),
    ("a", "a", "a", "a"),
    ("$", "$", "$", "$"),
    ("--", "--", "---", "---"),
    ("\u{1f600}", "\u{1f600}", "\u{1f601}", "\u{1f601}"),
];

fn any_delims(s: &mut Src) -> Delims {
    let k = s.below(100);
    let (i, b) = if k < 82 {
        let p = s.pick(PAIRS);
        ((p.0.to_string(), p.1.to_string()), (p.2.to_string(), p.3.to_string()))
    } else {
        let mut w = || {
            let n = s.len(1, 3);
            (0..n).map(|_| s.pick(&["a", "$", "[", "|", "é", "-"])).collect::<String>()
        };
        if k < 90 {
            let (x, y) = (w(), w());
            ((x.clone(), x), (y.clone(), y))
        } else {
            ((w(), w()), (w(), w()))
        }
    };
    Delims { inline: i, block: b, escaped: s.chance(2, 5) }
}

const PROSE: &[&str] = &[
    "The price is ", "\n", "<p>", "</p>\n", " and ", "é", "中文", "😀", "&lt;", "&amp;amp;", "\\", "$", "a", "[", "]", "-",
    "<!-- x -->", "\t", "\r\n", " ", "{", "}", "\u{feff}", "\u{0}", "%", "(", "|", "€", "aa", "§",
];
const FORMULAS: &[&str] = &[
    "x",
    "x^2+y_1",
    "\\frac{1}{2}",
    " a ",
    "",
    "\n x\n",
    "\\alpha\\beta",
    "a &lt; b",
    "\\begin{matrix}a&amp;b\\\\c&amp;d\\end{matrix}",
    "\\begin{equation}x\\end{equation}",
    "\\begin{align}a&=b\\\\c&=d\\end{align}",
    "\\text{é 中}",
    "\\int_0^1 f",
    "\\label{q}x",
    "\\tag{3}y",
    "\\eqref{q}",
    "\\global\\def\\zq{u}\\zq",
    "\\zq",
    "é",
    "\\sqrt[3]{x}",
];
const BAD: &[&str] = &["\\nosuch", "{", "x^", "}", "\\frac{1}", "\\left(x", "\\begin{matrix}", "#", "x_1_2"];

fn filler(s: &mut Src) -> String {
    // Around the sizes at which a search in windows could go wrong.
    let base = s.pick(&[1024usize, 1024, 1024, 2048, 4096, 8192, 512, 256, 5000, 0, 64, 128, 65536]);
    let n = (base + s.usize(9)).saturating_sub(5);
    let c = s.pick(&["x", "x", "é", " ", "\n", "€"]);
    let mut t = c.repeat(n / c.len());
    while t.len() < n {
        t.push('.');
    }
    t
}

fn document(s: &mut Src, d: &Delims, formulas: &[&str], bad: bool) -> String {
    let mut o = String::new();
    let n = s.long(1, 10);
    let mut fill = 0;
    for _ in 0..n {
        match s.weighted(&[8, 10, 4, 3, 2, 2, 1]) {
            0 => {
                for _ in 0..s.len(1, 3) {
                    o.push_str(s.pick(PROSE));
                }
            }
            k @ (1 | 2) => {
                let p = if k == 1 { &d.inline } else { &d.block };
                o.push_str(&p.0);
                if s.chance(1, 10) && fill < 2 {
                    // A long formula: a comment hides nothing of the delimiters.
                    let t = filler(s);
                    if t.len() < 6000 {
                        o.push_str("\\text{");
                        o.push_str(&t.replace(['\n'], " "));
                        o.push('}');
                        fill += 1;
                    }
                }
                if bad && s.chance(1, 12) {
                    o.push_str(s.pick(BAD));
                } else {
                    o.push_str(s.pick(formulas));
                }
                if s.chance(1, 14) {
                    o.push('\\');
                }
                o.push_str(&p.1);
            }
            3 => {
                o.push('\\');
                let all = [d.inline.0.as_str(), &d.inline.1, &d.block.0, &d.block.1];
                o.push_str(s.pick(&all));
            }
            4 if fill < 3 => {
                o.push_str(&filler(s));
                fill += 1;
            }
            5 => {
                let x = s.pick(formulas);
                o.push_str(x);
            }
            6 => {
                let all = [d.inline.0.as_str(), &d.inline.1, &d.block.0, &d.block.1];
                let x = s.pick(&all);
                let k = x.char_indices().map(|(i, _)| i).collect::<Vec<_>>();
                let cut = if s.flip() { s.pick(&k) } else { x.len() };
                o.push_str(&x[..cut]);
            }
            _ => {}
        }
    }
    o
}

fn c25(s: &mut Src, r: &mut Rec) -> Res {
    if s.chance(1, 80) {
        // An empty delimiter delimits nothing: it is refused.
        let n = s.pick(&["inline-del", "block-del", "inline-open inline-close", "block-open block-close"]);
        let names: Vec<&str> = n.split(' ').collect();
        let k = s.usize(names.len());
        let mut args: Vec<String> = names
            .iter()
            .enumerate()
            .map(|(i, n)| format!("--{n}={}", if i == k { "" } else { "|" }))
            .collect();
        args.push("-".into());
        let doc = s.pick(&["", "x", "a $x$ b", "|x|"]);
        r.input = format!("{args:?} {doc:?}");
        r.nontrivial = true;
        r.label("empty delimiter");
        let sc = Scratch::new();
        let out = run_bin(&sc.0, &args, doc.as_bytes())?;
        if out.code == 0 || out.err.trim().is_empty() || !out.out.is_empty() {
            return fail("an empty delimiter is accepted", clip(&out.err, 500));
        }
        return Ok(());
    }
    let d = any_delims(s);
    let doc = document(s, &d, FORMULAS, true);
    let go_on = s.chance(1, 2);
    let mut args = Vec::new();
    d.args(s, &mut args);
    if go_on {
        args.push("--continue-on-error".into());
    }
    let file = s.chance(1, 4);
    r.input = format!("{args:?}{} {doc:?}", if file { " file" } else { "" });
    let Ok((segs, bad)) = split(&doc, &d) else {
        r.label("open reading (skipped)");
        return Ok(());
    };
    let nf = segs.iter().filter(|x| matches!(x, Seg::Formula(..))).count();
    let mut conv = LatexToMathML::default();
    let want = expected(&segs, bad, &mut conv, go_on);
    r.nontrivial = nf >= 1;
    r.label(match &want {
        Want::Doc(_) if nf == 0 => "no formula",
        Want::Doc(_) => "replaced",
        Want::Delimiter(Bad::Unclosed(_)) => "unclosed",
        Want::Delimiter(Bad::Nested(_)) => "nested",
        Want::Delimiter(Bad::Mismatched(..)) => "mismatched",
        Want::Latex(_) => "bad formula",
    });
    if !matches!(want, Want::Doc(_)) {
        r.nontrivial = true;
    }
    let sc = Scratch::new();
    let out = if file {
        fs::write(sc.0.join("in.html"), &doc).expect("write");
        args.push("in.html".into());
        run_bin(&sc.0, &args, b"")?
    } else {
        args.push("-".into());
        run_bin(&sc.0, &args, doc.as_bytes())?
    };
    check_out(&doc, &want, &out, !file, false)?;
    if file && fs::read(sc.0.join("in.html")).ok().as_deref() != Some(doc.as_bytes()) {
        return fail("the input file changed", "");
    }
    Ok(())
}

fn c26(s: &mut Src, r: &mut Rec) -> Res {
    const OTHER: &[&str] = &[
        "&nbsp;", "&", "& ", " & b ", "&lt", "&gt ", "&;", "&#;", "&x;", "&ltx;", "&xlt;", "&alpha;", "&notin;", "&amplt;",
        "&copy", "&Delta;", "& lt;", "&l t;", "&#60", "&#600;", "&#3", "&apo;", "&quotx;", "&AMP;", "&LT;", "&GT;", "&QUOT;", "&Lt;", "&Amp;", "&#038;", "&#060;", "&#x26;",
        "&#X3C;", "&#x22;", "&#380;", "&#a;", "&amp#;", "&#amp;", "&#39", "&#340;",
    ];
    const MATH: &[&str] = &[
        "x", "+", "a", "\\frac{1}{2}", "\\\\", " ", "lt;", "amp;", ";", "#60;", "\\text{a", "}", "{", "é", "中", "\\alpha ", "^2",
        "\\begin{matrix}", "\\end{matrix}", "\\&", "\n", "1",
    ];
    const GOOD: &[&str] = &["x", "+", "a", "\\frac{1}{2}", "\\\\", " ", "lt;", ";", "\\&", "1", "\n", "é", "\\%", "&", "& ", "&x;", "&lt", "&ltx;", "&AMP;", "&GT;", "&#038;"];
    let mut t = String::new();
    let mut n = 0;
    let good = s.flip();
    if good {
        t.push_str("\\begin{matrix}");
    }
    for _ in 0..s.long(1, 10) {
        match s.weighted(&[5, 3, 4, 1]) {
            1 | 2 if good => t.push_str(s.pick(GOOD)),
            0 => {
                t.push_str(s.pick_ref(REFS).0);
                n += 1;
            }
            1 => t.push_str(s.pick(OTHER)),
            2 => t.push_str(s.pick(MATH)),
            _ => {
                // Encoded twice: only the outer reference goes.
                let x = s.pick_ref(REFS).0;
                t.push_str("&amp;");
                t.push_str(&x[1..]);
                n += 1;
            }
        }
    }
    if good {
        t.push_str("\\end{matrix}");
    }
    let block = s.flip();
    let pre = s.pick(&["", "a &lt; b ", "&amp;"]);
    let q = if block { "$$" } else { "$" };
    let doc = format!("{pre}{q}{t}{q}{pre}");
    r.input = format!("{doc:?}");
    r.nontrivial = n > 0;
    if t.contains('$') {
        return Ok(());
    }
    let d = Delims { inline: ("$".into(), "$".into()), block: ("$$".into(), "$$".into()), escaped: false };
    let Ok((segs, bad)) = split(&doc, &d) else { return Ok(()) };
    let mut conv = LatexToMathML::default();
    let want = expected(&segs, bad, &mut conv, true);
    let Want::Doc(w) = &want else {
        r.label("no formula");
        r.nontrivial = false;
        let sc = Scratch::new();
        let out = run_bin(&sc.0, &["--continue-on-error".into(), "-".into()], doc.as_bytes())?;
        return check_out(&doc, &want, &out, true, false);
    };
    r.label(if w.contains("math-core-error") { "formula with an error" } else { "good formula" });
    let sc = Scratch::new();
    let out = run_bin(&sc.0, &["--continue-on-error".into(), "-".into()], doc.as_bytes())?;
    check_out(&doc, &want, &out, true, false)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    Good,
    BadFormula,
    BadDelims,
    NotUtf8,
}

fn c27(s: &mut Src, r: &mut Rec) -> Res {
    const NAMES: &[&str] = &[
        "a.html", "b.html", "index.html", "a.htm", "A.HTML", "c.txt", "html", ".html", "x.html.bak", "x.tar.html", "é.html",
        "b c.html", "-n.html", "README", "a.xhtml", "a.Html", "a.htmlx", "a.html5", "a.html~", "ahtml", "a.html.", "a.b.html",
    ];
    const DIRS: &[&str] = &["sub", "d.html", "deep/er", ".hidden", "empty dir"];
    let sc = Scratch::new();
    let root = sc.0.join("t");
    fs::create_dir(&root).unwrap();
    let mut dirs = vec![String::new()];
    for _ in 0..s.len(0, 3) {
        let d = format!("{}/", s.pick(DIRS));
        fs::create_dir_all(root.join(&d)).unwrap();
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    let go_on = s.chance(1, 3);
    // (relative path, kind, content, converted)
    let mut files: Vec<(String, Kind, Vec<u8>, Option<Vec<u8>>)> = Vec::new();
    let any_bad = s.chance(1, 2);
    for _ in 0..s.long(1, 6) {
        let name = format!("{}{}", s.pick_ref(&dirs), s.pick(NAMES));
        if files.iter().any(|f| f.0 == name) {
            continue;
        }
        let kind = match s.weighted(&[3, 8, 2, 2, 1]) {
            0 => Kind::Plain,
            1 => Kind::Good,
            2 if any_bad => Kind::BadFormula,
            3 if any_bad => Kind::BadDelims,
            4 if any_bad => Kind::NotUtf8,
            _ => Kind::Good,
        };
        let body: Vec<u8> = match kind {
            Kind::Plain => s.pick(&["", "no formula\n", "<p>é</p>", "<math><mi>x</mi></math>"]).into(),
            Kind::Good => format!("{}${}$ and $${}$${}", s.pick(&["", "<p>", "é"]), s.pick(&["x", "a^2", "&lt;", "x                                                                                                  ", "x % and a comment that is longer than what becomes of the formula, whatever that may be\n"]), s.pick(&["y", "\\frac12"]), s.pick(&["", "\n", "end"])).into(),
            Kind::BadFormula => s.pick(&["$x$ $\\nosuch$ z", "$}$", "ok $a$ $$\\frac$$ $b$"]).into(),
            Kind::BadDelims => s.pick(&["$x", "$x$ and $", "$$x$ y", "$$ x"]).into(),
            Kind::NotUtf8 => b"$x$ \xff\xfe".to_vec(),
        };
        let convert = |body: &[u8]| std::str::from_utf8(body).ok().and_then(|t| {
            let d = Delims { inline: ("$".into(), "$".into()), block: ("$$".into(), "$$".into()), escaped: false };
            let (segs, bad) = split(t, &d).ok()?;
            match expected(&segs, bad, &mut LatexToMathML::default(), go_on) {
                Want::Doc(x) => Some(x.into_bytes()),
                _ => None,
            }
        });
        let (mut body, mut conv) = (body.clone(), convert(&body));
        // Sometimes the result is exactly as long as the original.
        if kind == Kind::Good && s.chance(1, 4) {
            let gap = conv.as_ref().map_or(0, |c| c.len().saturating_sub(body.len()));
            let at = body.iter().position(|&b| b == b'$').unwrap() + 1;
            body.splice(at..at, std::iter::repeat_n(b' ', gap));
            conv = convert(&body);
            if gap > 0 && conv.as_ref().is_some_and(|c| c.len() == body.len()) {
                r.label("a result of the same length");
            }
        }
        let p = root.join(&name);
        fs::write(&p, &body).unwrap();
        let old = std::time::SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
        fs::File::options().write(true).open(&p).unwrap().set_modified(old).unwrap();
        files.push((name, kind, body, conv));
    }
    // What is asked for.
    let recursive = s.chance(1, 2);
    let write = !recursive && s.chance(2, 3);
    let dry = s.chance(1, 4);
    let mut args: Vec<String> = Vec::new();
    if recursive {
        args.push(s.pick(&["-r", "--recursive"]).into());
    }
    if write {
        args.push(s.pick(&["-w", "--write"]).into());
    }
    if dry {
        args.push("--dry-run".into());
    }
    if go_on {
        args.push("--continue-on-error".into());
    }
    let target = match s.weighted(&[10, 5, 1]) {
        0 if recursive => s.pick_ref(&dirs).trim_end_matches('/').to_string(),
        0 | 1 => s.pick_ref(&files).0.clone(),
        _ => "missing.html".to_string(),
    };
    let full = root.join(&target);
    args.push("--".into());
    args.push(format!("t/{target}"));
    r.input = format!(
        "{args:?} {:?}",
        files.iter().map(|f| (&f.0, f.1)).collect::<Vec<_>>()
    );
    let out = run_bin(&sc.0, &args, b"")?;
    let is_dir = full.is_dir();
    let under = |n: &str| {
        if is_dir { target.is_empty() || n.starts_with(&format!("{target}/")) } else { n == target }
    };
    let ext_html = |n: &str| Path::new(n).extension().is_some_and(|e| e == "html");
    // The files that are to be read.
    let picked: Vec<_> = files
        .iter()
        .filter(|f| {
            if recursive { under(&f.0) && ext_html(&f.0) } else { !is_dir && f.0 == target }
        })
        .collect();
    let io = picked.iter().any(|f| f.1 == Kind::NotUtf8)
        || (!recursive && (is_dir || !full.exists()));
    let conv_err = picked.iter().any(|f| f.1 != Kind::NotUtf8 && f.3.is_none());
    let codes: &[i32] = match (io, conv_err) {
        (false, false) => &[0],
        (true, false) => &[1],
        (false, true) => &[2],
        (true, true) => &[1, 2],
    };
    // The exit code for a missing target in recursive mode is not specified.
    let open = recursive && !full.exists();
    if !open && !codes.contains(&out.code) {
        return fail(
            format!("exit code {} instead of {codes:?}", out.code),
            format!("{}\n{}", r.input, clip(&out.err, 500)),
        );
    }
    if out.code != 0 && out.err.trim().is_empty() {
        return fail("a failure without a message", r.input.clone());
    }
    r.label(match (recursive, write, dry) {
        (_, _, true) => "dry run",
        (true, ..) => "recursive",
        (_, true, _) => "in place",
        _ => "to standard output",
    });
    if io || conv_err {
        r.label("with a failure");
    }
    r.nontrivial = !picked.is_empty();
    // The tree afterwards.
    let ok = codes == [0];
    for f in &files {
        let now = fs::read(root.join(&f.0)).unwrap_or_default();
        let chosen = picked.iter().any(|p| p.0 == f.0);
        let conv = f.3.as_ref();
        let may = chosen && conv.is_some() && !dry && (recursive || write);
        let must = may && ok;
        if now != f.2 && !(may && Some(&now) == conv) {
            return fail(
                if dry {
                    "a dry run changed a file"
                } else if !chosen {
                    "a file that was not asked for changed"
                } else if conv.is_none() {
                    "a file whose conversion failed changed"
                } else if !may {
                    "a file changed without being asked for"
                } else {
                    "a file got other content than its conversion"
                },
                format!("{}\n{}: {}", r.input, f.0, String::from_utf8_lossy(&now)),
            );
        }
        if must && Some(&now) != conv {
            return fail("a file was not converted", format!("{}\n{}", r.input, f.0));
        }
        if now == f.2 {
            let m = fs::metadata(root.join(&f.0)).and_then(|m| m.modified()).unwrap();
            let old = std::time::SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
            if m != old {
                return fail("a file was written without a change", format!("{}\n{}", r.input, f.0));
            }
        }
    }
    // Nothing else in the tree.
    let mut n = 0;
    count(&sc.0, &mut n);
    if n != files.len() {
        return fail("files were added or removed", format!("{}: {n}", r.input));
    }
    // Standard output.
    let shown: Option<&[u8]> = if ok && !recursive && !write && !dry {
        picked.first().and_then(|f| f.3.as_deref())
    } else {
        None
    };
    if out.out != shown.unwrap_or_default() {
        return fail(
            "unexpected standard output",
            format!("{}\n{}", r.input, String::from_utf8_lossy(&out.out)),
        );
    }
    Ok(())
}

fn count(p: &Path, n: &mut usize) {
    for e in fs::read_dir(p).unwrap().flatten() {
        if e.path().is_dir() {
            count(&e.path(), n);
        } else {
            *n += 1;
        }
    }
}

fn toml_str(s: &mut Src, t: &str) -> String {
    if !t.contains('\'') && !t.contains('\n') && s.flip() {
        return format!("'{t}'");
    }
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if c.is_control() => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const TYPES: &[(&str, &str)] = &[
    ("pretty-print", "sometimes' 3 true [] 'Always' ''"),
    ("xml-namespace", "'true' 1 0 [] 'yes'"),
    ("ignore-unknown-commands", "'true' 1 0 []"),
    ("annotation", "'true' 1 0 []"),
    ("allow-unreliable-rendering", "'true' 1 0 []"),
    ("global-group", "'true' 1 0 []"),
    ("unicode-substitution", "true 1 [] 'always' 'aggressive' 'Never'"),
    ("indentation", "true -1 1.5 [] 'tabs' 'space' '4'"),
    ("max-expansions", "true -1 1.5 [] '4' 4294967296"),
    ("id-prefix", "true 1 []"),
    ("macros", "true 1 'a' ['a']"),
    ("css-classes", "true 1 'a'"),
];

const CFG_MACROS: &[(&str, &str)] = &[
    ("R", "\\mathbb{R}"),
    ("sq", "#1^2"),
    ("two", "\\frac{#1}{#2}"),
    ("é", "\\acute{e}"),
    ("α", "\\beta"),
    ("later", "\\R+\\sq{x}"),
    ("loop", "\\loop x"),
    ("quote", "\\text{\"it's\"}"),
    ("alpha", "A"),
    (",", "\\;"),
    ("long", "a\n+b"),
    ("empty", ""),
];
const CFG_BAD: &[(&str, &str)] = &[("bad", "{"), ("bad", "\\nosuch"), ("bad", "#0"), ("", "x"), ("a b", "x")];
const CFG_FORMULAS: &[&str] = &[
    "x",
    "\\R",
    "\\sq{y}",
    "\\two{1}{2}",
    "\\frac{a}{b}+\\sqrt{c}",
    "é",
    "\\α",
    "α",
    "\\later",
    "\\loop",
    "\\quote",
    "\\alpha",
    "a\\,b",
    "\\long",
    "\\empty x",
    "\\nosuch",
    "\\coloneqq",
    "\\begin{matrix}a&b\\\\c&d\\end{matrix}",
    "\\begin{equation}\\label{e}x\\end{equation}",
    "\\eqref{e}",
    "\\def\\q{1}\\q",
    "\\q",
    "\\underbar{x}",
    "\\widetilde{x}",
    "x:=y",
    "}",
    "",
];

fn c28(s: &mut Src, r: &mut Rec) -> Res {
    let mut c = crate::cfg::any(s);
    if s.flip() {
        for _ in 0..s.len(1, 4) {
            let m = s.pick(CFG_MACROS);
            if !c.macros.iter().any(|x| x.0 == m.0) {
                c.macros.push((m.0.into(), m.1.into()));
            }
        }
    }
    let bad_macro = s.chance(1, 12);
    if bad_macro {
        let m = s.pick(CFG_BAD);
        c.macros.push((m.0.into(), m.1.into()));
    }
    // Write the settings in any order, defaults sometimes spelt out.
    let d = Cfg::default();
    let mut top: Vec<String> = Vec::new();
    let mut sections: Vec<String> = Vec::new();
    macro_rules! flag {
        ($n:literal, $f:ident) => {
            if c.$f != d.$f || s.chance(1, 6) {
                top.push(format!("{} = {}", $n, c.$f));
            }
        };
    }
    flag!("xml-namespace", xmlns);
    flag!("ignore-unknown-commands", ignore_unknown);
    flag!("annotation", annotation);
    flag!("allow-unreliable-rendering", unreliable);
    flag!("global-group", global_group);
    flag!("max-expansions", max_expansions);
    if c.pretty != d.pretty || s.chance(1, 6) {
        top.push(format!("pretty-print = \"{}\"", ["never", "always", "auto"][c.pretty as usize]));
    }
    if c.subst != d.subst || s.chance(1, 6) {
        top.push(format!(
            "unicode-substitution = '{}'",
            if c.subst { "conventional" } else { "never" }
        ));
    }
    if c.indent != d.indent || s.chance(1, 6) {
        top.push(match c.indent {
            None => "indentation = \"tab\"".into(),
            Some(n) => format!("indentation = {n}"),
        });
    }
    if c.id_prefix != d.id_prefix || s.chance(1, 6) {
        let v = toml_str(s, &c.id_prefix);
        top.push(format!("id-prefix = {v}"));
    }
    if let Some(u) = c.unknown_class.clone() {
        let u = toml_str(s, &u);
        if s.flip() {
            top.push(format!("css-classes = {{ unknown-command = {u} }}"));
        } else {
            sections.push(format!("[css-classes]\nunknown-command = {u}"));
        }
    } else if s.chance(1, 6) {
        sections.push("[css-classes]".into());
    }
    if !c.macros.is_empty() || s.chance(1, 6) {
        let mut t = String::from("[macros]");
        for (k, v) in c.macros.clone() {
            let bare = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric());
            let key = if bare && s.flip() { k } else { toml_str(s, &k) };
            let val = toml_str(s, &v);
            t.push_str(&format!("\n{key} = {val}"));
        }
        sections.push(t);
    }
    let ill = s.chance(1, 8);
    if ill {
        let (k, vs) = s.pick(TYPES);
        let vs: Vec<&str> = vs.split(' ').collect();
        let v = s.pick(&vs);
        top.retain(|x| !x.starts_with(k));
        sections.retain(|x| !x.starts_with(&format!("[{k}]")));
        top.push(format!("{k} = {v}"));
    }
    for i in (1..top.len()).rev() {
        let j = s.usize(i + 1);
        top.swap(i, j);
    }
    if sections.len() == 2 && s.flip() {
        sections.swap(0, 1);
    }
    top.extend(sections);
    if s.chance(1, 8) {
        top.insert(0, "# a comment".into());
    }
    let toml = top.join("\n") + "\n";
    let sc = Scratch::new();
    let mut args: Vec<String> = Vec::new();
    // The file is found by its default name, or named.
    match s.below(4) {
        0 => {
            args.push(s.pick(&["-c", "--config-file"]).into());
            args.push("cfg/my.toml".into());
            fs::create_dir(sc.0.join("cfg")).unwrap();
            fs::write(sc.0.join("cfg/my.toml"), &toml).unwrap();
            // The default file does not count then.
            fs::write(sc.0.join("mathcore.toml"), "pretty-print = 'always'\nid-prefix='no'\n").unwrap();
            r.label("named file");
        }
        _ => {
            fs::write(sc.0.join("mathcore.toml"), &toml).unwrap();
            r.label("default file");
        }
    }
    // A document of several formulas, or one formula.
    let single = s.chance(1, 3);
    let mut lib = LatexToMathML::new(c.raw());
    let go_on = s.flip();
    let (want, doc, stdin) = if single {
        let f = s.pick(CFG_FORMULAS);
        let d = match s.below(3) {
            0 => {
                args.push(s.pick(&["-b", "--block"]).into());
                MathDisplay::Block
            }
            1 => {
                args.push(s.pick(&["-i", "--inline"]).into());
                MathDisplay::Inline
            }
            _ => MathDisplay::Inline,
        };
        let stdin = if s.flip() {
            args.push(format!("--formula={f}"));
            String::new()
        } else {
            f.to_string()
        };
        let w = match &mut lib {
            Ok(l) => Some(match l.convert_with_global_state(f, d) {
                Ok(x) => Want::Doc(x.mathml),
                Err(e) => Want::Latex(e.error_message()),
            }),
            Err(_) => None,
        };
        (w, f.to_string(), stdin)
    } else {
        let mut doc = String::new();
        for _ in 0..s.len(1, 4) {
            let f = s.pick(CFG_FORMULAS);
            let q = s.pick(&["$", "$$"]);
            doc.push_str(&format!("<p>{q}{f}{q}\n"));
        }
        let dl = Delims { inline: ("$".into(), "$".into()), block: ("$$".into(), "$$".into()), escaped: false };
        let Ok((segs, bad)) = split(&doc, &dl) else { return Ok(()) };
        if go_on {
            args.push("--continue-on-error".into());
        }
        args.push("-".into());
        let w = match &mut lib {
            Ok(l) => Some(expected(&segs, bad, l, go_on)),
            Err(_) => None,
        };
        (w, doc.clone(), doc)
    };
    r.input = format!("{args:?} {toml:?} {doc:?}");
    r.nontrivial = top_len(&toml) > 0;
    let out = run_bin(&sc.0, &args, stdin.as_bytes())?;
    if ill {
        r.label("ill-typed setting");
        if out.code == 0 || out.err.trim().is_empty() {
            return fail("an ill-typed setting is accepted", r.input.clone());
        }
        if out.code != 4 {
            return fail(format!("exit code {} for a bad configuration", out.code), clip(&out.err, 500));
        }
        if !out.out.is_empty() {
            return fail("output in spite of a bad configuration", r.input.clone());
        }
        return Ok(());
    }
    let Some(want) = want else {
        r.label("bad macro");
        // Which one of several bad macros is reported is not specified.
        let mut orders = vec![c.macros.clone(), c.macros.clone(), c.macros.clone()];
        orders[1].reverse();
        orders[2].sort();
        let errs: Vec<String> = orders
            .into_iter()
            .filter_map(|m| {
                let mut c = c.clone();
                c.macros = m;
                LatexToMathML::new(c.raw()).err().map(|e| words(&e.0.error_message()))
            })
            .collect();
        if out.code != 2 || !out.out.is_empty() {
            return fail(format!("exit code {} for a bad macro", out.code), r.input.clone());
        }
        if !errs.iter().any(|e| words(&out.err).contains(e)) {
            return fail("the macro's error is not reported", clip(&out.err, 500));
        }
        return Ok(());
    };
    if let Want::Latex(_) = want {
        r.label("bad formula");
    }
    check_out(&doc, &want, &out, true, false)
}

fn top_len(t: &str) -> usize {
    t.lines().filter(|l| l.contains('=')).count()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "the document has at least one delimited formula or a delimiter error",
            quick: 12_000,
            thorough: 400_000,
            enumerate: 0,
            run: c25,
            assumptions: &["The library, taken as the oracle for each formula, is checked by the other properties. An escaped delimiter that overlaps another delimiter has no agreed reading and is skipped."],
        },
        Prop {
            id: "C26",
            rule: "the formula has at least one character reference",
            quick: 10_000,
            thorough: 300_000,
            enumerate: 0,
            run: c26,
            assumptions: &["An ampersand directly after another one starts no reference (pinned by a unit test)."],
        },
        Prop {
            id: "C27",
            rule: "at least one file is to be converted",
            quick: 8_000,
            thorough: 200_000,
            enumerate: 0,
            run: c27,
            assumptions: &["The order in which a directory is read is not specified; after a failure other files may or may not have been converted."],
        },
        Prop {
            id: "C28",
            rule: "the configuration file has at least one setting",
            quick: 10_000,
            thorough: 300_000,
            enumerate: 0,
            run: c28,
            assumptions: &["Settings with unknown names are not specified."],
        },
    ]
}
