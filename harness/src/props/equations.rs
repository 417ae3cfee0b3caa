//! Equation numbers, labels and references: histories of formulas against a reference model.

use super::*;
use crate::cfg::{self, Cfg};
use crate::engine::{Rec, Src};
use crate::r#gen::letter;
use std::collections::BTreeMap;
use std::fmt::Write;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            rule: "A case is a sequence of 1-6 formulas, each of 1-3 (numbered or plain) environments with random rows, cells, tags, stars and suppression, converted one by one with shared state and resets, as a batch, or locally; the rows' numbers are compared with a reference model. Non-trivial: at least 2 numbered rows over the case.",
            quick: 200_000,
            thorough: 10_000_000,
            enumerate: 3,
            run: c08,
            assumptions: &["A row with both \\notag and \\tag is left out of the random cases (known finding: it also suppresses the next row's number)."],
        },
        Prop {
            id: "C09",
            rule: "As C08, with labels (unique, repeated, on unnumbered rows) and references (backward, forward, undefined, inside cells, groups and macros); ids, links, shown numbers and the warning are compared with a reference label map. Non-trivial: at least one reference to a label defined in the case.",
            quick: 200_000,
            thorough: 10_000_000,
            enumerate: 0,
            run: c09,
            assumptions: &["A label on a row without a number is taken to be undefined, as the code does (LaTeX would refer to the section)."],
        },
    ]
}

#[derive(Default, Clone, Debug)]
struct Row {
    cells: usize,
    notag: bool,
    tag: Option<(String, bool)>,
    label: Option<String>,
}

#[derive(Clone, Debug)]
struct EqEnv {
    name: &'static str,
    rows: Vec<Row>,
}

#[derive(Clone, Debug, Default)]
struct Formula {
    src: String,
    envs: Vec<EqEnv>,
    refs: Vec<String>,
    /// Does not convert, and must not have any effect.
    broken: bool,
}

/// What a row is expected to show: the tag with its parentheses, and the label.
type Shown = (usize, Option<String>, Option<String>);

#[derive(Default, Clone)]
struct Model {
    counter: u64,
    labels: BTreeMap<String, String>,
}

impl Model {
    fn formula(&mut self, f: &Formula) -> Vec<Vec<Shown>> {
        f.envs.iter().map(|e| self.env(e)).collect()
    }
    fn number(&mut self) -> (String, bool) {
        self.counter += 1;
        (self.counter.to_string(), false)
    }
    fn env(&mut self, e: &EqEnv) -> Vec<Shown> {
        let starred = e.name.ends_with('*');
        let show = |t: &(String, bool)| if t.1 { t.0.clone() } else { format!("({})", t.0) };
        if e.name == "multline" {
            // One number for the whole environment, shown on its last row.
            let tag = e.rows.iter().rev().find_map(|r| r.tag.clone());
            let notag = e.rows.iter().any(|r| r.notag);
            let label = e.rows.iter().find_map(|r| r.label.clone());
            let t = match tag {
                Some(t) => Some(t),
                None if notag => None,
                None => Some(self.number()),
            };
            let last = e.rows.len() - 1;
            let mut out: Vec<Shown> = e.rows.iter().map(|r| (r.cells, None, None)).collect();
            if let Some(t) = t {
                if let Some(l) = &label {
                    self.labels.insert(l.clone(), t.0.clone());
                }
                out[last] = (e.rows[last].cells, Some(show(&t)), label);
            }
            return out;
        }
        e.rows
            .iter()
            .map(|r| {
                let t = match &r.tag {
                    Some(t) => Some(t.clone()),
                    None if starred || r.notag => None,
                    None => Some(self.number()),
                };
                match t {
                    None => (r.cells, None, None),
                    Some(t) => {
                        if let Some(l) = &r.label {
                            self.labels.insert(l.clone(), t.0.clone());
                        }
                        (r.cells, Some(show(&t)), r.label.clone())
                    }
                }
            })
            .collect()
    }
}

const LABELS: &[&str] = &["a", "eq:1", "b c", "x|y", "(q)", "A/b-c.d", "u<v>w", "1", "A", "aa", "a;b=c@d?e", "a!b*c+d", "<>", "",
    "eq:a-quite-long-label-with-many-characters-in-it-as-generated-by-some-tools-from-the-title-of-a-section-1234567890",
    "eq:a-quite-long-label-with-many-characters-in-it-as-generated-by-some-tools-from-the-title-of-a-section-1234567891",
];
fn a_label(s: &mut Src) -> &'static str {
    if s.flip() { s.pick(LABELS) } else { s.pick(&LABELS[..5]) }
}
const TAGS: &[&str] = &["1", "A", "i.ii", "2-b", "a b", "*", "<x>", "!?", "", "99", "Definition 12.3.4 of the long introduction to everything, part 1", "1000", "12a", "--", "a,b;c:d"];

fn a_ref(s: &mut Src, f: &mut Formula) -> String {
    let l = a_label(s);
    f.refs.push(l.to_string());
    match s.below(5) {
        0 => format!("{{\\eqref{{{l}}}}}"),
        1 => format!("\\rf{{{l}}}"),
        2 => format!("\\text{{by}} \\eqref{{{l}}}"),
        3 => format!("\\underset{{\\eqref{{{l}}}}}{{=}}"),
        _ => format!("\\eqref{{{l}}}"),
    }
}

/// Content of a cell: nothing in it may reach the surrounding environment.
fn content(s: &mut Src, f: &mut Formula, labels: bool) -> String {
    let mut out = String::new();
    let n = s.len(0, 3);
    for _ in 0..n {
        let c = letter(s);
        match s.below(if labels { 17 } else { 14 }) {
            0..=3 => out.push(c),
            4 => {
                let _ = write!(out, "{c}=1 ");
            }
            5 => out.push_str("\\begin{pmatrix}a&b\\\\c&d\\end{pmatrix}"),
            6 => out.push_str("\\begin{aligned}a&=b\\notag\\\\c&=d\\end{aligned}"),
            7 => out.push_str("\\left(\\frac{x}{y}\\right)"),
            8 => out.push_str("{x}"),
            9 => out.push_str("\\begin{cases}1&x\\\\0&y\\end{cases}"),
            10 => out.push_str("\\text{for \\textbf{all}}"),
            11 => out.push_str("\\sum_{i=1}^n"),
            12 => out.push_str("\\sqrt[3]{x}"),
            13 => out.push_str("\\begin{array}{c|c}\\hline a&b\\\\\\hline c\\end{array}"),
            _ => out.push_str(&a_ref(s, f)),
        }
    }
    out
}

fn formula(s: &mut Src, labels: bool) -> Formula {
    let mut f = Formula::default();
    let n = s.long(1, 3);
    for _ in 0..n {
        if s.chance(1, 3) {
            let t = content(s, &mut f, labels);
            f.src.push_str(&t);
        }
        let kind = s.weighted(&[4, 2, 3, 2, 3, 2, 4]);
        let name = ["align", "align*", "gather", "gather*", "equation", "equation*", "multline"][kind];
        let one = name.starts_with("equation");
        let cols = name.starts_with("align");
        let rows = if one { 1 } else { s.long(1, 5) };
        let mut e = EqEnv { name, rows: vec![] };
        let wrap = s.chance(1, 8);
        if wrap {
            f.src.push('{');
        }
        if name == "equation" && s.chance(1, 4) {
            f.src.push_str("\\be ");
        } else {
            let _ = write!(f.src, "\\begin{{{name}}}");
        }
        let mut labelled = false;
        for i in 0..rows {
            if i > 0 {
                f.src.push_str(s.pick(&["\\\\", "\\\\ ", "\\\\\n", "\\newline "]));
            }
            let mut r = Row::default();
            // The marks of this row.
            let mut marks: Vec<String> = Vec::new();
            match s.weighted(&[6, 2, 2]) {
                0 => {}
                1 => {
                    r.notag = true;
                    marks.push(s.pick(&["\\notag ", "\\nonumber ", "\\nn ", "{\\notag}", "\\notag\\notag "]).into());
                }
                _ => {
                    let t = s.pick(TAGS);
                    let star = s.chance(1, 3);
                    r.tag = Some((t.into(), star));
                    marks.push(match (star, s.below(4)) {
                        (true, _) => format!("\\tag*{{{t}}}"),
                        (false, 0) if !t.is_empty() => format!("\\mytag{{{t}}}"),
                        _ => format!("\\tag{{{t}}}"),
                    });
                }
            }
            if labels && !(labelled && name == "multline") && s.chance(1, 2) {
                let l = a_label(s);
                r.label = Some(l.into());
                labelled = true;
                let at = s.usize(marks.len() + 1);
                marks.insert(at, if s.chance(1, 5) { format!("\\lab{{{l}}}") } else { format!("\\label{{{l}}}") });
            }
            r.cells = if cols { s.long(1, 4) } else { 1 };
            for c in 0..r.cells {
                if c > 0 {
                    f.src.push('&');
                }
                while !marks.is_empty() && s.flip() {
                    let m = marks.remove(0);
                    f.src.push_str(&m);
                }
                let t = content(s, &mut f, labels);
                f.src.push_str(&t);
            }
            for m in marks {
                f.src.push_str(&m);
            }
            if one && s.chance(1, 6) {
                f.src.push_str("\\\\ z");
            }
            e.rows.push(r);
        }
        if name == "equation" && s.chance(1, 4) {
            f.src.push_str("\\ee ");
        } else {
            let _ = write!(f.src, "\\end{{{name}}}");
        }
        if wrap {
            f.src.push('}');
        }
        f.envs.push(e);
    }
    if labels && s.chance(1, 3) {
        let t = a_ref(s, &mut f);
        f.src.push_str(&t);
    }
    f
}

/// The rows of every equation array, in document order.
fn equation_rows(math: &El) -> Vec<Vec<&El>> {
    math.find_all("mtable")
        .into_iter()
        .filter(|t| t.attr("style").is_some_and(|s| s.contains("width: 100%")))
        .map(|t| t.els().collect())
        .collect()
}

struct Seen {
    cells: usize,
    tag: Option<String>,
    id: Option<String>,
    /// An id anywhere else in the row's own cells.
    stray: bool,
}

fn seen(row: &El) -> Result<Seen, String> {
    let cells: Vec<&El> = row.els().collect();
    if cells.len() < 3 {
        return Err(format!("row of {} cells", cells.len()));
    }
    let (first, last) = (cells[0], cells[cells.len() - 1]);
    if !first.kids.is_empty() {
        return Err("left margin cell is not empty".into());
    }
    let tag = match last.els().count() {
        0 => None,
        1 => last.els().next().map(El::text),
        _ => return Err("number cell with several elements".into()),
    };
    Ok(Seen {
        cells: cells.len() - 2,
        tag,
        id: last.attr("id").map(Into::into),
        stray: row.attr("id").is_some() || cells[..cells.len() - 1].iter().any(|c| c.attr("id").is_some()),
    })
}

fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            if b[i] <= b' ' || b"\"<>".contains(&b[i]) {
                return None;
            }
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

struct Case {
    cfg: Cfg,
    docs: Vec<(Formula, MathDisplay, bool)>,
    mode: u64,
}

fn case(s: &mut Src, rec: &mut Rec, labels: bool) -> Case {
    let mut c = Cfg::default();
    if s.chance(1, 3) {
        c.pretty = s.below(3) as u8;
    }
    c.xmlns = s.chance(1, 6);
    c.global_group = s.chance(1, 4);
    if labels && s.chance(1, 3) {
        c.id_prefix = s.pick(&["p-", "doc:1-", "R&D-", "a\"b<", "&lt;"]).into();
    }
    for (n, b) in [
        ("be", "\\begin{equation}"),
        ("ee", "\\end{equation}"),
        ("rf", "\\eqref{#1}"),
        ("lab", "\\label{#1}"),
        ("mytag", "\\tag{#1}"),
        ("nn", "\\notag"),
    ] {
        c.macros.push((n.into(), b.into()));
    }
    let mode = s.weighted(&[5, 3, 1]) as u64;
    let n = s.long(1, 6);
    let docs: Vec<_> = (0..n)
        .map(|i| {
            let f = if s.chance(1, 10) {
                let src = s.pick(&[
                    "\\begin{align*}a\\tag{Z}\\label{zq}\\\\\\nosuch\\end{align*}",
                    "\\nosuch",
                    "x^",
                    "\\begin{equation*}a\\tag{Y}\\label{zp}",
                    "\\eqref{a}\\nosuch",
                    "{a",
                    "\\begin{align*}a\\\\b\\tag{1}\\label{zr}\\\\\\label{zr}\\end{align*}\\end{equation}",
                ]);
                Formula { src: src.into(), broken: true, ..Formula::default() }
            } else {
                formula(s, labels)
            };
            (f, cfg::disp(s), i > 0 && mode == 0 && s.chance(1, 6))
        })
        .collect();
    rec.label(["one by one", "batch", "local"][mode as usize]);
    let shown = Cfg { macros: vec![], ..c.clone() };
    rec.input = format!("{} {}", shown.show(), ["one by one", "batch", "local"][mode as usize]);
    for (f, d, reset) in &docs {
        let _ = write!(rec.input, "\n{}{}: {}", if *reset { "reset; " } else { "" }, dshow(*d), f.src);
    }
    Case { cfg: c, docs, mode }
}

type Expected = (Vec<Vec<Shown>>, BTreeMap<String, String>);

/// Convert a case; returns per formula the tree, the warning, and what the model expects.
fn run_case(c: &Case) -> Result<Vec<(El, bool, Expected)>, Fail> {
    let mut m = Model::default();
    let mut out = Vec::new();
    let take = |r: Result<ConvertResult, Box<LatexError>>, f: &Formula| match r {
        Err(_) if f.broken => Ok((parse("<math></math>")?, false)),
        Ok(_) if f.broken => fail("broken formula accepted", f.src.clone()),
        Ok(r) => Ok((parse(&r.mathml)?, r.warnings.has_undefined_references())),
        Err(e) => fail("valid formula rejected", format!("{}\n{e:?}", f.src)),
    };
    match c.mode {
        0 => {
            let mut conv = c.cfg.build();
            for (f, d, reset) in &c.docs {
                if *reset {
                    conv.reset_global_state();
                    m = Model::default();
                }
                let shown = m.formula(f);
                let (e, w) = take(conv.convert_with_global_state(&f.src, *d), f)?;
                out.push((e, w, (shown, m.labels.clone())));
            }
        }
        1 => {
            let conv = c.cfg.build();
            let list: Vec<(&str, MathDisplay)> = c.docs.iter().map(|(f, d, _)| (f.src.as_str(), *d)).collect();
            let shown: Vec<_> = c.docs.iter().map(|(f, _, _)| m.formula(f)).collect();
            for ((r, (f, _, _)), shown) in conv.convert_all(&list).into_iter().zip(&c.docs).zip(shown) {
                let (e, w) = take(r, f)?;
                out.push((e, w, (shown, m.labels.clone())));
            }
        }
        _ => {
            let conv = c.cfg.build();
            for (f, d, _) in &c.docs {
                let mut m = Model::default();
                let shown = m.formula(f);
                let (e, w) = take(conv.convert_with_local_state(&f.src, *d), f)?;
                out.push((e, w, (shown, m.labels.clone())));
            }
        }
    }
    Ok(out)
}

fn fixed08(n: u64, rec: &mut Rec) -> Res {
    let conv = Cfg::default().build();
    let (src, want): (&str, Option<&[&str]>) = match n {
        0 => ("\\begin{align}a\\notag\\tag{X}\\\\b\\end{align}", Some(&["(X)", "(1)"])),
        1 => ("a\\tag{1}", None),
        _ => ("\\begin{aligned}a\\tag{1}\\end{aligned}", None),
    };
    rec.input = src.into();
    rec.nontrivial = true;
    match (conv.convert_with_local_state(src, MathDisplay::Block), want) {
        (Ok(r), Some(want)) => {
            let e = parse(&r.mathml)?;
            let got: Vec<_> = equation_rows(&e)[0].iter().filter_map(|r| seen(r).ok()?.tag).collect();
            if got != want {
                return fail("\\notag with \\tag", format!("{got:?} instead of {want:?}"));
            }
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(_), None) => fail("\\tag accepted outside of a numbered environment", src),
        (Err(e), Some(_)) => fail("valid formula rejected", format!("{e:?}")),
    }
}

fn c08(s: &mut Src, rec: &mut Rec) -> Res {
    let n = s.below(2000);
    if n < 3 {
        return fixed08(n, rec);
    }
    let labels = s.chance(1, 4);
    let c = case(s, rec, labels);
    let got = run_case(&c)?;
    let mut numbered = 0;
    for (i, (e, _, (want, _))) in got.iter().enumerate() {
        let tables = equation_rows(e);
        if tables.len() != want.len() {
            return fail("number of equation environments", format!("formula {i}: {} for {}", tables.len(), want.len()));
        }
        for (t, w) in tables.iter().zip(want) {
            if t.len() != w.len() {
                return fail("number of rows", format!("formula {i}: {} instead of {}", t.len(), w.len()));
            }
            for (k, (row, (cells, tag, _))) in t.iter().zip(w).enumerate() {
                rec.evals += 1;
                let r = match seen(row) {
                    Ok(r) => r,
                    Err(m) => return fail("shape of a numbered row", format!("formula {i} row {k}: {m}")),
                };
                if r.cells != *cells {
                    return fail("cells of a row", format!("formula {i} row {k}: {} instead of {cells}", r.cells));
                }
                if &r.tag != tag {
                    return fail("equation number", format!("formula {i} row {k}: {:?} instead of {tag:?}", r.tag));
                }
                if tag.is_some() {
                    numbered += 1;
                }
            }
        }
    }
    // \tag is rejected outside of numbered environments, wherever it hides.
    if s.chance(1, 20) {
        let t = s.pick(TAGS);
        let src = s
            .pick(&[
                "a\\tag{@}", "\\begin{aligned}a\\tag{@}\\end{aligned}", "\\begin{pmatrix}a\\tag{@}\\end{pmatrix}",
                "{\\tag*{@}}", "\\begin{align}\\begin{matrix}a\\tag{@}\\end{matrix}\\end{align}", "\\mytag{@}",
                "\\begin{gathered}a\\\\b\\tag{@}\\end{gathered}", "\\begin{cases}\\tag{@}\\end{cases}",
                "\\begin{align}a\\end{align}\\tag{@}", "\\begin{array}{c}\\tag{@}\\end{array}",
            ])
            .replace('@', t);
        rec.evals += 1;
        if let Ok(r) = c.cfg.build().convert_with_local_state(&src, MathDisplay::Block) {
            return fail("\\tag accepted outside of a numbered environment", format!("{src}: {}", r.mathml));
        }
    }
    rec.nontrivial = numbered >= 2;
    Ok(())
}

fn c09(s: &mut Src, rec: &mut Rec) -> Res {
    let c = case(s, rec, true);
    let got = run_case(&c)?;
    let prefix = &c.cfg.id_prefix;
    let mut resolved = 0;
    let mut total_rows = 0;
    for (i, (e, warn, (want, labels))) in got.iter().enumerate() {
        for (t, w) in equation_rows(e).iter().zip(want) {
            if t.len() != w.len() {
                return fail("number of rows", format!("formula {i}: {} instead of {}", t.len(), w.len()));
            }
            for (k, (row, (_, _, label))) in t.iter().zip(w).enumerate() {
                total_rows += 1;
                rec.evals += 1;
                let r = match seen(row) {
                    Ok(r) => r,
                    Err(m) => return fail("shape of a numbered row", format!("formula {i} row {k}: {m}")),
                };
                let got = match &r.id {
                    None => None,
                    Some(id) => match id.strip_prefix(prefix.as_str()).and_then(decode) {
                        Some(l) => Some(l),
                        None => return fail("id of a row", format!("formula {i} row {k}: {id}")),
                    },
                };
                if &got != label || r.stray {
                    return fail("label of a row", format!("formula {i} row {k}: {:?} instead of {label:?}", r.id));
                }
            }
        }
        let refs = e.find_all("a");
        let want = &c.docs[i].0.refs;
        if refs.len() != want.len() {
            return fail("number of references", format!("formula {i}: {} instead of {}", refs.len(), want.len()));
        }
        let mut undef = false;
        for (a, l) in refs.iter().zip(want) {
            rec.evals += 1;
            let href = a.attr("href").unwrap_or("");
            let target = href.strip_prefix('#').and_then(|h| h.strip_prefix(prefix.as_str())).and_then(decode);
            if target.as_deref() != Some(l) {
                return fail("target of a reference", format!("formula {i}: {href} for {l}"));
            }
            let text = match labels.get(l) {
                Some(t) => {
                    resolved += 1;
                    format!("({t})")
                }
                None => {
                    undef = true;
                    "(??)".into()
                }
            };
            if a.text() != text {
                return fail("text of a reference", format!("formula {i}: {} shows {} instead of {text}", l, a.text()));
            }
        }
        if *warn != undef {
            return fail("undefined-reference warning", format!("formula {i}: {warn} instead of {undef}"));
        }
        // The link and the id are spelled alike.
        for a in &refs {
            let href = a.attr("href").unwrap_or("");
            for row in equation_rows(e).iter().flatten() {
                if let Ok(Seen { id: Some(id), .. }) = seen(row)
                    && let Some(x) = id.strip_prefix(prefix.as_str()).and_then(decode)
                    && Some(x) == href.strip_prefix('#').and_then(|h| h.strip_prefix(prefix.as_str())).and_then(decode)
                    && href[1..] != id
                {
                    return fail("link and id differ", format!("{href} {id}"));
                }
            }
        }
    }
    // Labels outside of numbered environments and second labels are rejected.
    if s.chance(1, 20) {
        let l = a_label(s);
        let src = s
            .pick(&[
                "a\\label{@}", "{\\label{@}}", "\\begin{pmatrix}a\\label{@}\\end{pmatrix}",
                "\\begin{align}a\\label{@}\\label{zz}\\end{align}",
                "\\begin{multline}a\\label{zz}\\\\b\\label{@}\\end{multline}",
                "\\begin{equation}a\\label{@}\\\\b\\label{@}\\end{equation}",
                "\\begin{aligned}a\\label{@}\\end{aligned}", "\\begin{align}a\\end{align}\\label{@}",
            ])
            .replace('@', l);
        rec.evals += 1;
        if let Ok(r) = c.cfg.build().convert_with_local_state(&src, MathDisplay::Block) {
            return fail("misplaced label accepted", format!("{src}: {}", r.mathml));
        }
    }
    rec.nontrivial = resolved > 0 && total_rows > 0;
    Ok(())
}
