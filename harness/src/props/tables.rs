//! C22: tables keep their cells, alignment and rules.

use super::macros::canonical;
use super::*;
use crate::engine::{Rec, Src, clip};
use crate::xml::Node;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Matrix,
    Cases,
    Array,
    Alternating,
    Gather,
    Multline,
}

/// Name, kind, the fences around it, whether it is in display style, whether its rows can have numbers.
const ENVS: &[(&str, Kind, &str, &str, bool, bool)] = &[
    ("matrix", Kind::Matrix, "", "", false, false),
    ("pmatrix", Kind::Matrix, "(", ")", false, false),
    ("bmatrix", Kind::Matrix, "[", "]", false, false),
    ("Bmatrix", Kind::Matrix, "{", "}", false, false),
    ("vmatrix", Kind::Matrix, "|", "|", false, false),
    ("Vmatrix", Kind::Matrix, "‖", "‖", false, false),
    ("cases", Kind::Cases, "{", "", false, false),
    ("rcases", Kind::Cases, "", "}", false, false),
    ("dcases", Kind::Cases, "{", "", true, false),
    ("drcases", Kind::Cases, "", "}", true, false),
    ("array", Kind::Array, "", "", false, false),
    ("array", Kind::Array, "", "", false, false),
    ("array", Kind::Array, "", "", false, false),
    ("darray", Kind::Array, "", "", true, false),
    ("subarray", Kind::Array, "", "", false, false),
    ("aligned", Kind::Alternating, "", "", true, false),
    ("gathered", Kind::Gather, "", "", true, false),
    ("align", Kind::Alternating, "", "", true, true),
    ("align*", Kind::Alternating, "", "", true, true),
    ("gather", Kind::Gather, "", "", true, true),
    ("gather*", Kind::Gather, "", "", true, true),
    ("multline", Kind::Multline, "", "", true, true),
];

const CELLS: &[&str] = &[
    "a",
    "x_1^2",
    "12",
    "\\frac{a}{b}",
    "b+c",
    "\\alpha",
    "{d}",
    "\\sqrt{y}",
    "\\left(z\\right)",
    "\\text{if } q",
    "f(x)",
    "\\hat{u}",
    "\\mathbf{v}",
    "\\begin{matrix}g\\\\h\\end{matrix}",
    "\\begin{array}{|c||c|}\\hline i&j\\\\ \\hline k\\end{array}",
    "\\begin{cases}m&n\\\\o&p\\end{cases}",
    "{\\begin{aligned}r&=s\\\\&t\\end{aligned}}",
    "a,b",
    "|x|",
    "\\{e\\}",
    "\\sum_{\\begin{subarray}{l}i\\\\j\\end{subarray}}w",
    "\\overset{\\begin{matrix}1&2\\end{matrix}}{A}",
    "*",
    "\\phantom{a}",
];

fn style(e: &El) -> BTreeMap<String, String> {
    e.attr("style")
        .unwrap_or("")
        .split(';')
        .filter_map(|p| p.split_once(':'))
        .map(|(k, v)| (k.trim().to_string(), v.trim().to_string()))
        .collect()
}

fn rule(st: &BTreeMap<String, String>, side: &str) -> &'static str {
    match st.get(&format!("border-{side}")) {
        None => "none",
        Some(v) if v.contains("dashed") => "dashed",
        Some(v) if v.contains("solid") => "solid",
        Some(_) => "odd",
    }
}

fn of(c: char) -> &'static str {
    if c == '|' { "solid" } else { "dashed" }
}

fn content(e: &El) -> Vec<Node> {
    canonical(e, false)
        .kids
        .into_iter()
        .filter(|k| !matches!(k, Node::Text(t) if t.trim_matches(crate::xml::ws).is_empty()))
        .collect()
}

fn show(v: &[Node]) -> String {
    v.iter()
        .map(|n| match n {
            Node::El(e) => e.show(),
            Node::Text(t) => t.clone(),
        })
        .collect()
}

/// One cell the model expects: `None` content = a spacer that only carries a rule.
struct Want {
    content: Option<String>,
    align: &'static str,
    right: &'static str,
}

fn c22(s: &mut Src, r: &mut Rec) -> Res {
    let (name, kind, open, close, display, numbered) =
        ENVS[s.below(1 << 32) as usize % ENVS.len()];
    let rows = s.long(1, 5);
    let max = match kind {
        Kind::Gather | Kind::Multline => 1,
        Kind::Cases => 2,
        _ => s.long(1, 6),
    };
    // The column specification: (alignment, rules to its right), and the rules at the left.
    let mut left: Vec<char> = Vec::new();
    let mut cols: Vec<(char, Vec<char>)> = Vec::new();
    let mut spec = String::new();
    if kind == Kind::Array {
        let rules = |s: &mut Src| -> Vec<char> {
            let n = s.weighted(&[6, 4, 2, 1]);
            (0..n).map(|_| s.pick(&['|', '|', ':'])).collect()
        };
        left = rules(s);
        for _ in 0..max {
            let a = s.pick(&['l', 'c', 'r']);
            cols.push((a, rules(s)));
        }
        let gap = if s.chance(1, 4) { s.pick(&[" ", "\t", "\n", "  ", "\n ", "\t\t", "%c|\n", " % {\n\t"]) } else { "" };
        let sp = |t: &mut String| t.push_str(gap);
        if s.chance(1, 3) {
            sp(&mut spec);
        }
        for c in &left {
            spec.push(*c);
            sp(&mut spec);
        }
        for (a, rs) in &cols {
            spec.push(*a);
            for c in rs {
                sp(&mut spec);
                spec.push(*c);
            }
        }
        if s.chance(1, 3) {
            sp(&mut spec);
        }
    }
    let may_rule = matches!(kind, Kind::Array | Kind::Matrix);
    let mut body = String::new();
    let mut grid: Vec<Vec<String>> = Vec::new();
    let mut tops: Vec<&'static str> = Vec::new();
    let mut tagged: Vec<bool> = Vec::new();
    let loose = s.flip();
    for i in 0..rows {
        if i > 0 {
            body.push_str("\\\\");
            if loose {
                body.push_str(s.pick(&[" ", "\n", "", "%x\n"]));
            }
        }
        let top = if may_rule && s.chance(1, 4) { s.pick(&["solid", "dashed"]) } else { "none" };
        if top != "none" {
            if loose && s.flip() {
                body.push(' ');
            }
            body.push_str(if top == "solid" { "\\hline " } else { "\\hdashline " });
        }
        tops.push(top);
        let n = if s.chance(1, 4) { s.len(1, max) } else { max };
        let mut row = Vec::new();
        for j in 0..n {
            if j > 0 {
                body.push('&');
            }
            let c = if s.chance(1, 6) { "" } else { s.pick(CELLS) };
            if loose && s.flip() {
                body.push(' ');
            }
            body.push_str(c);
            if loose && s.flip() {
                body.push_str(s.pick(&[" ", "\n", "\t"]));
            }
            row.push(c.to_string());
        }
        let mut tag = numbered && !name.ends_with('*') && (kind != Kind::Multline || i + 1 == rows);
        if numbered && kind != Kind::Multline {
            match s.below(8) {
                0 if !name.ends_with('*') => {
                    body.push_str("\\notag ");
                    tag = false;
                }
                1 => {
                    body.push_str("\\tag{T}");
                    tag = true;
                }
                _ => {}
            }
        }
        tagged.push(tag);
        grid.push(row);
    }
    // A line break in front of the end would start another (empty) row: an empty last row of one
    // cell is not generated.
    if rows > 1 && grid[rows - 1].len() == 1 && grid[rows - 1][0].is_empty() {
        grid[rows - 1][0] = "a".into();
        body.push('a');
    }
    let spec_arg = if kind == Kind::Array { format!("{{{spec}}}") } else { String::new() };
    let table = format!("\\begin{{{name}}}{spec_arg}{body}\\end{{{name}}}");
    // Where it stands.
    let place = if numbered { 0 } else { s.weighted(&[6, 1, 1, 1, 1, 1]) };
    let latex = match place {
        1 => format!("x+{table}=y"),
        2 => format!("\\left[{table}\\right."),
        3 => format!("\\frac{{{table}}}{{2}}"),
        4 => format!("{{{table}}}^T"),
        5 => format!("\\begin{{matrix}}{table}&Q\\\\W\\end{{matrix}}"),
        _ => table.clone(),
    };
    r.input = format!("{latex:?}");
    r.nontrivial = rows > 1 || grid[0].len() > 1;
    r.label(match kind {
        Kind::Matrix => "matrix",
        Kind::Cases => "cases",
        Kind::Array => "array",
        Kind::Alternating => "aligned",
        Kind::Gather => "gathered",
        Kind::Multline => "multline",
    });
    let conv = LatexToMathML::default();
    let disp = if s.flip() { MathDisplay::Inline } else { MathDisplay::Block };
    let res = match conv.convert_with_local_state(&latex, disp) {
        Ok(x) => x.mathml,
        Err(e) => return fail(format!("rejected: {}", crate::engine::norm(&e.error_message())), latex),
    };
    let m = parse(&res)?;
    // In document order the outer table comes first; the one for the matrix around it is skipped.
    let tables = m.find_all("mtable");
    let Some(t) = tables.get(usize::from(place == 5)) else {
        return fail("no table", res);
    };
    let bad = |what: String| -> Res { fail(what, format!("{latex}\n{}", clip(&res, 3000))) };
    // The fences.
    if !open.is_empty() || !close.is_empty() {
        let want_open = open;
        let want_close = close;
        let mut ok = false;
        m.walk(&mut |e| {
            let k: Vec<&El> = e.els().collect();
            if let Some(i) = k.iter().position(|x| std::ptr::eq(*x, *t)) {
                let side = |x: Option<&&El>| {
                    x.filter(|x| x.name == "mo").map(|x| x.text().replace('\u{2063}', ""))
                };
                let a = if i > 0 { side(k.get(i - 1)) } else { None };
                let b = side(k.get(i + 1));
                ok = a.unwrap_or_default() == want_open && b.unwrap_or_default() == want_close;
            }
        });
        if !ok {
            return bad("wrong fences".into());
        }
    }
    // Rules of the table as a whole.
    let st = style(t);
    let want_left = left.first().map_or("none", |c| of(*c));
    if rule(&st, "left") != want_left {
        return bad(format!("left rule {} instead of {want_left}", rule(&st, "left")));
    }
    if rule(&st, "top") != tops[0] {
        return bad(format!("top rule {} instead of {}", rule(&st, "top"), tops[0]));
    }
    if rule(&st, "right") != "none" || rule(&st, "bottom") != "none" {
        return bad("a rule nobody asked for".into());
    }
    let trs: Vec<&El> = t.els().collect();
    if trs.len() != rows {
        return bad(format!("{} rows instead of {rows}", trs.len()));
    }
    let cell_style = if display { MathDisplay::Block } else { MathDisplay::Inline };
    for (i, tr) in trs.iter().enumerate() {
        let mut got: Vec<&El> = tr.els().collect();
        if tr.name != "mtr" || got.iter().any(|e| e.name != "mtd") {
            return bad(format!("row {i} is not a row of cells"));
        }
        if numbered {
            if got.len() < 3 {
                return bad(format!("row {i} lacks the columns for the number"));
            }
            let first = got.remove(0);
            let last = got.pop().unwrap();
            if !content(first).is_empty() {
                return bad(format!("row {i} starts with something else"));
            }
            if content(last).is_empty() == tagged[i] {
                return bad(format!("row {i}: number in the wrong place"));
            }
        }
        let mut want: Vec<Want> = Vec::new();
        for c in left.iter().skip(1) {
            want.push(Want { content: None, align: "", right: of(*c) });
        }
        for (j, c) in grid[i].iter().enumerate() {
            let (align, right) = match kind {
                Kind::Array => (
                    match cols[j].0 {
                        'l' => "left",
                        'r' => "right",
                        _ => "",
                    },
                    cols[j].1.first().map_or("none", |c| of(*c)),
                ),
                Kind::Cases => ("left", "none"),
                Kind::Alternating => (if j % 2 == 0 { "right" } else { "left" }, "none"),
                Kind::Multline if i == 0 => ("left", "none"),
                Kind::Multline if i + 1 == rows => ("right", "none"),
                _ => ("", "none"),
            };
            want.push(Want { content: Some(c.clone()), align, right });
            if kind == Kind::Array {
                for c in cols[j].1.iter().skip(1) {
                    want.push(Want { content: None, align: "", right: of(*c) });
                }
            }
        }
        if got.len() != want.len() {
            return bad(format!("row {i} has {} cells instead of {}", got.len(), want.len()));
        }
        for (j, (g, w)) in got.iter().zip(&want).enumerate() {
            let st = style(g);
            if rule(&st, "right") != w.right {
                return bad(format!("rule {} instead of {} to the right of a cell", rule(&st, "right"), w.right));
            }
            let top = if i == 0 { "none" } else { tops[i] };
            if rule(&st, "top") != top {
                return bad(format!("rule {} instead of {top} above a cell", rule(&st, "top")));
            }
            if rule(&st, "left") != "none" || rule(&st, "bottom") != "none" {
                return bad("a rule nobody asked for".into());
            }
            // The rows of a subarray are set close to each other, those of other arrays are not;
            // nothing separates the two sides of an alignment point.
            let zero = |side: &str| st.get(side).map(String::as_str) == Some("0");
            if kind == Kind::Array && (zero("padding-top"), zero("padding-bottom")) != (name == "subarray", name == "subarray") {
                return bad("vertical distance of a cell".into());
            }
            if kind == Kind::Alternating && (zero("padding-right"), zero("padding-left")) != (j % 2 == 0, j % 2 == 1) {
                return bad("distance at an alignment point".into());
            }
            let have = content(g);
            match &w.content {
                None => {
                    if !have.is_empty() {
                        return bad(format!("row {i}: content in a rule"));
                    }
                }
                Some(c) => {
                    let a = st.get("text-align").map_or("", String::as_str);
                    if a != w.align {
                        return bad(format!("cell aligned {a:?} instead of {:?}", w.align));
                    }
                    let alone = conv.convert_with_local_state(c, cell_style).expect("cell").mathml;
                    let alone = content(&parse(&alone)?);
                    if have != alone {
                        return bad(format!(
                            "row {i}, cell {j}: {} instead of {}",
                            show(&have),
                            show(&alone)
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "the table has more than one cell",
        quick: 200_000,
        thorough: 20_000_000,
        enumerate: ENVS.len() as u64,
        run: c22,
        assumptions: &[
            "A cell is compared with the conversion of its content alone, without operator spacing and redundant rows.",
            "A line break in front of the end of the environment starts another row (pinned by snapshots); cells beyond the column specification are not generated.",
            "The number of a row comes after the cells of that row, in whatever column that is (pinned by wiki_test).",
        ],
    }]
}
