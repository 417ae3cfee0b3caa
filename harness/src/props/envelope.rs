//! Properties of the converter as a whole: formatting options, envelope, state isolation.

use super::*;
use crate::cfg::{self, Cfg};
use crate::engine::{Rec, Src};
use crate::r#gen::{self, FULL, Opts};
use crate::xml::Node;
use std::fmt::Write;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "A case is one snippet (grammar-directed or mutated from the repository's expressions) converted compactly, pretty-printed and in automatic mode under the same other settings. Non-trivial: it converts and the pretty-printed output has at least 4 lines.",
            quick: 400_000,
            thorough: 12_000_000,
            enumerate: 0,
            run: c05,
            assumptions: &[],
        },
        Prop {
            id: "C06",
            rule: "A case is one snippet converted with and without namespace, annotation and as block and inline. Non-trivial: it converts.",
            quick: 400_000,
            thorough: 12_000_000,
            enumerate: 0,
            run: c06,
            assumptions: &[],
        },
        Prop {
            id: "C07",
            rule: "A case is a history of 2-9 local conversions, global conversions, batches and resets on one converter; each result is compared with a fresh converter given only the operations it may depend on. Non-trivial: at least 3 operations of at least 2 kinds.",
            quick: 150_000,
            thorough: 5_000_000,
            enumerate: 0,
            run: c07,
            assumptions: &[],
        },
        Prop {
            id: "C10",
            rule: "A case is a list of 1-7 formulas (numbered environments, labels, references, definitions, broken formulas) converted as a batch and one by one. Non-trivial: at least 2 formulas convert and one of them has a number, reference or definition.",
            quick: 150_000,
            thorough: 5_000_000,
            enumerate: 0,
            run: c10,
            assumptions: &[],
        },
        Prop {
            id: "C15",
            rule: "A case is one snippet without unknown commands converted under both settings, and the same snippet with 1-3 unknown commands planted between tokens, compared with a known symbol planted there. Non-trivial: the planted snippet converts.",
            quick: 300_000,
            thorough: 10_000_000,
            enumerate: 0,
            run: c15,
            assumptions: &["The known symbol that stands in for the unknown command is \\exists, which no font command changes."],
        },
    ]
}

fn snippet(s: &mut Src) -> String {
    match s.weighted(&[150, 30, 60, 4]) {
        3 => {
            let t = s.pick(&["x", "", "\\frac{a}{b}", "\\begin{array}{c|c}a&b\\\\c&d\\end{array}"]).to_string();
            r#gen::deep(s, &t)
        }
        0 => r#gen::math(s, FULL),
        1 => r#gen::math(s, Opts { layout: true, noise: 10, ..FULL }),
        _ => r#gen::mutated(s),
    }
}

const TOKEN: &[&str] = &["mi", "mn", "mo", "mtext", "ms", "mspace", "annotation"];

/// The tree without white space between elements.
pub fn strip(e: &El) -> El {
    if TOKEN.contains(&e.name.as_str()) {
        return e.clone();
    }
    El {
        name: e.name.clone(),
        attrs: e.attrs.clone(),
        kids: e
            .kids
            .iter()
            .filter_map(|k| match k {
                Node::El(c) => Some(Node::El(strip(c))),
                Node::Text(t) if t.trim_matches(crate::xml::ws).is_empty() => None,
                Node::Text(t) => Some(Node::Text(t.clone())),
            })
            .collect(),
    }
}

fn ws_between(e: &El) -> bool {
    if TOKEN.contains(&e.name.as_str()) {
        return false;
    }
    e.kids.iter().any(|k| match k {
        Node::El(c) => ws_between(c),
        Node::Text(t) => t.trim_matches(crate::xml::ws).is_empty(),
    })
}

/// Every element starts on its own line at its depth; every element with child elements ends on
/// its own line.
fn indented(e: &El, depth: usize, unit: &str, out: &mut Option<String>) {
    if TOKEN.contains(&e.name.as_str()) {
        return;
    }
    let inner = format!("\n{}", unit.repeat(depth + 1));
    let outer = format!("\n{}", unit.repeat(depth));
    // An upright or bold identifier is kept on one line with the empty space that goes with it.
    if e.name == "mrow"
        && let [Node::El(a), Node::El(b)] = &e.kids[..]
        && a.name == "mspace"
        && a.attrs.is_empty()
        && b.name == "mi"
    {
        return;
    }
    // So are an unknown command, and the wrappers of a length with several units.
    if let [Node::El(a)] = &e.kids[..] {
        if e.name == "merror" && a.name == "mtext" {
            return;
        }
        if e.name == "mpadded" && a.name == "mpadded" {
            return indented(a, depth, unit, out);
        }
    }
    let mut prev: Option<&str> = None;
    let mut any = false;
    for k in &e.kids {
        match k {
            Node::Text(t) => prev = Some(t),
            Node::El(c) => {
                any = true;
                if prev != Some(inner.as_str()) {
                    out.get_or_insert(format!(
                        "<{}> in <{}> at depth {} is preceded by {prev:?}",
                        c.name, e.name, depth + 1
                    ));
                }
                prev = None;
                indented(c, depth + 1, unit, out);
            }
        }
    }
    let ok = if any { prev == Some(outer.as_str()) } else { prev.is_none() || prev == Some(outer.as_str()) };
    if !ok {
        out.get_or_insert(format!("</{}> at depth {depth} is preceded by {prev:?}", e.name));
    }
}

fn c05(s: &mut Src, rec: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    let d = cfg::disp(s);
    let t = snippet(s);
    rec.input = format!("{} {} {t}", c.show(), dshow(d));
    let run = |p: u8, c: &mut Cfg| {
        c.pretty = p;
        c.build().convert_with_local_state(&t, d)
    };
    let flat = run(0, &mut c);
    let pretty = run(1, &mut c);
    let auto = run(2, &mut c);
    rec.evals = 3;
    let (flat, pretty, auto) = match (flat, pretty, auto) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        (Err(a), Err(b), Err(c)) => {
            if format!("{a:?}") != format!("{b:?}") || format!("{a:?}") != format!("{c:?}") {
                return fail("errors differ with pretty-printing", format!("{a:?} {b:?} {c:?}"));
            }
            return Ok(());
        }
        _ => return fail("pretty-printing changes whether it converts", rec.input.clone()),
    };
    let w = |r: &ConvertResult| (r.warnings.has_undefined_references(), r.warnings.has_unknown_commands());
    if w(&flat) != w(&pretty) || w(&flat) != w(&auto) {
        return fail("pretty-printing changes warnings", rec.input.clone());
    }
    let want = if matches!(d, MathDisplay::Block) { &pretty.mathml } else { &flat.mathml };
    if &auto.mathml != want {
        return fail("automatic mode", format!("auto: {}\nexpected: {want}", auto.mathml));
    }
    let a = parse(&flat.mathml)?;
    let b = parse(&pretty.mathml)?;
    if ws_between(&a) {
        return fail("white space between elements of compact output", flat.mathml);
    }
    if strip(&b) != a {
        return fail(
            "pretty-printing changes more than white space",
            format!("compact: {}\npretty: {}", flat.mathml, pretty.mathml),
        );
    }
    let unit = match c.indent {
        Some(n) => " ".repeat(n.into()),
        None => "\t".into(),
    };
    let mut bad = None;
    indented(&b, 0, &unit, &mut bad);
    if let Some(m) = bad {
        return fail("indentation", format!("{m}\n{}", pretty.mathml));
    }
    rec.nontrivial = pretty.mathml.lines().count() >= 4;
    Ok(())
}

const XMLNS: &str = " xmlns=\"http://www.w3.org/1998/Math/MathML\"";

fn c06(s: &mut Src, rec: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    let d = cfg::disp(s);
    let t = if s.chance(1, 4) { snippet(s) + &r#gen::soup(s) } else { snippet(s) };
    rec.input = format!("{} {} {t}", c.show(), dshow(d));
    let run = |ns: bool, an: bool, c: &mut Cfg| {
        c.xmlns = ns;
        c.annotation = an;
        c.build().convert_with_local_state(&t, d)
    };
    let plain = run(false, false, &mut c);
    let ns = run(true, false, &mut c);
    let an = run(false, true, &mut c);
    let both = run(true, true, &mut c);
    rec.evals = 4;
    let (plain, ns, an, both) = match (plain, ns, an, both) {
        (Ok(a), Ok(b), Ok(c), Ok(d)) => (a, b, c, d),
        (Err(a), Err(b), Err(c), Err(d)) => {
            let a = format!("{a:?}");
            if [b, c, d].iter().any(|e| format!("{e:?}") != a) {
                return fail("errors differ with the envelope", a);
            }
            return Ok(());
        }
        _ => return fail("the envelope changes whether it converts", rec.input.clone()),
    };
    rec.nontrivial = true;
    let w = |r: &ConvertResult| (r.warnings.has_undefined_references(), r.warnings.has_unknown_commands());
    if w(&plain) != w(&ns) || w(&plain) != w(&an) || w(&plain) != w(&both) {
        return fail("the envelope changes warnings", rec.input.clone());
    }
    let open = match d {
        MathDisplay::Block => "<math display=\"block\">",
        MathDisplay::Inline => "<math>",
    };
    let insert = |m: &str| format!("<math{XMLNS}{}", &m[5..]);
    if !plain.mathml.starts_with(open) {
        return fail("root element", plain.mathml);
    }
    if insert(&plain.mathml) != ns.mathml || insert(&an.mathml) != both.mathml {
        return fail("namespace changes more than the namespace", format!("{}\n{}", plain.mathml, ns.mathml));
    }
    let a = strip(&parse(&plain.mathml)?);
    let b = strip(&parse(&an.mathml)?);
    if a.attrs != b.attrs {
        return fail("annotation changes the root", an.mathml);
    }
    let bad = |m: &str| fail(m, format!("plain: {}\nannotated: {}", plain.mathml, an.mathml));
    let [Node::El(sem)] = &b.kids[..] else { return bad("annotated formula is not one semantics element") };
    if sem.name != "semantics" || !sem.attrs.is_empty() || sem.kids.len() != 2 {
        return bad("annotated formula is not one semantics element");
    }
    let (Node::El(x), Node::El(ann)) = (&sem.kids[0], &sem.kids[1]) else {
        return bad("text in semantics");
    };
    if ann.name != "annotation" || ann.attrs != [("encoding".into(), "application/x-tex".into())] {
        return bad("annotation element");
    }
    if ann.els().next().is_some() || ann.text() != t {
        return bad("annotation is not the source");
    }
    let content: &[Node] = if a.kids.len() == 1 {
        std::slice::from_ref(&sem.kids[0])
    } else {
        if x.name != "mrow" || !x.attrs.is_empty() {
            return bad("annotated content is not a plain row");
        }
        &x.kids
    };
    if content != a.kids {
        return bad("annotated content differs");
    }
    Ok(())
}

/// A snippet that reads or writes the state shared between conversions.
pub fn stateful(s: &mut Src) -> (String, &'static str) {
    let l = s.pick(&["a", "b", "c:1", "x y"]);
    let n = s.pick(&["foo", "bar", "baz"]);
    let v = r#gen::letter(s);
    match s.below(14) {
        0 => (format!("\\begin{{equation}} {v} \\end{{equation}}"), "number"),
        1 => (format!("\\begin{{equation}} {v} \\label{{{l}}} \\end{{equation}}"), "label"),
        2 => (
            format!("\\begin{{align}} {v} &= 1 \\label{{{l}}} \\\\ &\\eqref{{b}} \\\\ c \\end{{align}}"),
            "label",
        ),
        3 => (format!("\\text{{see}} \\eqref{{{l}}}"), "reference"),
        4 => (format!("\\eqref{{{l}}} + \\eqref{{a}}"), "reference"),
        5 => (
            format!("\\begin{{gather}} {v} \\tag{{T{v}}} \\label{{{l}}} \\\\ {v} \\end{{gather}}"),
            "tag",
        ),
        6 => (format!("\\newcommand{{\\{n}}}[1]{{{v} #1}} \\{n}{{2}}"), "definition"),
        7 => (format!("\\def\\{n}#1{{#1 {v}}} \\{n} 3"), "definition"),
        8 => (format!("\\{n}{{{v}}} + 1"), "use"),
        9 => (format!("\\{n} {v}"), "use"),
        10 => (
            format!("\\begin{{align}} {v} \\label{{{l}}} \\\\ 2 \\end{{align}} \\frac"),
            "broken",
        ),
        11 => (format!("\\gdef\\{n}#1{{{v}}} {{\\def\\{n}#1{{8}}"), "broken"),
        12 => (
            format!("\\let\\{n}={} \\{n}{{x}} \\renewcommand\\{n}[1]{{<#1>}}", s.pick(&["\\sqrt", "\\baz", "\\hat"])),
            "definition",
        ),
        _ => (r#gen::math(s, FULL), "formula"),
    }
}

fn c07(s: &mut Src, rec: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    c.max_expansions = 1000;
    c.global_group = !s.chance(1, 3);
    if s.flip() {
        c.ignore_unknown = true;
    }
    if s.chance(1, 3) {
        c.macros = vec![("bar".into(), "(#1)".into()), ("foo".into(), "\\bar{#1}+".into())];
    }
    let pool: Vec<(String, MathDisplay)> = (0..s.len(1, 4))
        .map(|_| {
            let (t, l) = stateful(s);
            rec.label(l);
            (t, cfg::disp(s))
        })
        .collect();
    let n = s.long(2, 9);
    let ops: Vec<(u64, usize)> = (0..n).map(|_| (s.weighted(&[4, 4, 1, 1]) as u64, s.usize(pool.len()))).collect();
    rec.input = c.show();
    for (i, (t, d)) in pool.iter().enumerate() {
        let _ = write!(rec.input, "\n#{i} {}: {t}", dshow(*d));
    }
    let name = ["global", "local", "reset", "batch"];
    let _ = write!(
        rec.input,
        "\n{}",
        ops.iter().map(|(o, i)| format!("{} #{i}", name[*o as usize])).collect::<Vec<_>>().join(", ")
    );
    let mut conv = c.build();
    let mut log: Vec<usize> = Vec::new();
    for (k, (op, i)) in ops.iter().enumerate() {
        let (t, d) = &pool[*i];
        rec.evals += 1;
        let (got, want) = match op {
            0 => {
                let got = conv.convert_with_global_state(t, *d);
                let mut f = c.build();
                for j in &log {
                    let _ = f.convert_with_global_state(&pool[*j].0, pool[*j].1);
                }
                log.push(*i);
                let want = f.convert_with_global_state(t, *d);
                (vec![outcome(&got)], vec![outcome(&want)])
            }
            1 => {
                let got = conv.convert_with_local_state(t, *d);
                let want = c.build().convert_with_local_state(t, *d);
                (vec![outcome(&got)], vec![outcome(&want)])
            }
            2 => {
                conv.reset_global_state();
                log.clear();
                continue;
            }
            _ => {
                let all: Vec<(&str, MathDisplay)> = pool.iter().map(|(t, d)| (t.as_str(), *d)).collect();
                let got = conv.convert_all(&all);
                let want = c.build().convert_all(&all);
                (got.iter().map(outcome).collect(), want.iter().map(outcome).collect())
            }
        };
        if got != want {
            return fail(
                format!("{} conversion depends on unrelated history", name[*op as usize]),
                format!("operation {k}: got {got:?}\nfresh converter: {want:?}"),
            );
        }
    }
    // A converter can be shared: local conversions and batches at the same time get the same results.
    if s.chance(1, 8) {
        rec.label("threads");
        let all: Vec<(&str, MathDisplay)> = pool.iter().map(|(t, d)| (t.as_str(), *d)).collect();
        let local = |k: usize| -> Vec<_> { (0..all.len()).map(|i| (i + k) % all.len()).map(|i| outcome(&conv.convert_with_local_state(all[i].0, all[i].1))).collect() };
        let want: Vec<Vec<_>> = (0..3).map(local).collect();
        let batch: Vec<_> = conv.convert_all(&all).iter().map(outcome).collect();
        let (got, gb) = std::thread::scope(|t| {
            let big = || std::thread::Builder::new().stack_size(64 << 20);
            let h: Vec<_> = (0..3).map(|k| big().spawn_scoped(t, move || local(k)).unwrap()).collect();
            let b = big().spawn_scoped(t, || conv.convert_all(&all).iter().map(outcome).collect::<Vec<_>>()).unwrap();
            (h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>(), b.join().unwrap())
        });
        rec.evals += 4;
        if got != want || gb != batch {
            return fail("threads that share a converter get other results", format!("got {got:?} {gb:?}\none after another: {want:?} {batch:?}"));
        }
    }
    let mut kinds: Vec<u64> = ops.iter().map(|o| o.0).collect();
    kinds.sort_unstable();
    kinds.dedup();
    rec.nontrivial = ops.len() >= 3 && kinds.len() >= 2;
    Ok(())
}

/// Replace the text of every reference by what `look` says; collect whether one is undefined.
fn relink(e: &El, look: &dyn Fn(&str) -> Option<El>, undef: &mut bool) -> Option<El> {
    if e.name == "a" {
        let href = e.attr("href")?;
        let r = look(href)?;
        if r.text() == "??" || r.text() == "(??)" {
            *undef = true;
        }
        return Some(r);
    }
    let mut o = El { name: e.name.clone(), attrs: e.attrs.clone(), kids: vec![] };
    for k in &e.kids {
        o.kids.push(match k {
            Node::El(c) => Node::El(relink(c, look, undef)?),
            Node::Text(t) => Node::Text(t.clone()),
        });
    }
    Some(o)
}

fn c10(s: &mut Src, rec: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    c.max_expansions = 1000;
    c.global_group = s.flip();
    let n = s.long(1, 7);
    let mut list = Vec::new();
    let mut interesting = 0;
    for _ in 0..n {
        let (t, l) = stateful(s);
        rec.label(l);
        if !matches!(l, "formula" | "broken") {
            interesting += 1;
        }
        list.push((t, cfg::disp(s)));
    }
    rec.input = c.show();
    for (t, d) in &list {
        let _ = write!(rec.input, "\n{}: {t}", dshow(*d));
    }
    let all: Vec<(&str, MathDisplay)> = list.iter().map(|(t, d)| (t.as_str(), *d)).collect();
    let got = c.build().convert_all(&all);
    let mut conv = c.build();
    let seq: Vec<_> = list.iter().map(|(t, d)| conv.convert_with_global_state(t, *d)).collect();
    rec.evals = list.len() as u64;
    if got.len() != seq.len() {
        return fail("number of results", format!("{} for {}", got.len(), seq.len()));
    }
    // What each reference shows at the end of the sequential run.
    let mut finals: Vec<(String, El)> = Vec::new();
    for l in ["a", "b", "c:1", "x y"] {
        if let Ok(r) = conv.convert_with_global_state(&format!("\\eqref{{{l}}}"), MathDisplay::Inline) {
            let e = parse(&r.mathml)?;
            if let Some(a) = e.find_all("a").first() {
                finals.push((a.attr("href").unwrap_or("").to_string(), (*a).clone()));
            }
        }
    }
    let look = |h: &str| finals.iter().find(|(k, _)| k == h).map(|(_, e)| e.clone());
    let mut ok = 0;
    for (i, (g, q)) in got.iter().zip(&seq).enumerate() {
        match (g, q) {
            (Err(a), Err(b)) => {
                if format!("{a:?}") != format!("{b:?}") {
                    return fail("batch error differs", format!("#{i}: {a:?}\n{b:?}"));
                }
            }
            (Ok(a), Ok(b)) => {
                ok += 1;
                let ea = parse(&a.mathml)?;
                let eb = parse(&b.mathml)?;
                let mut undef = false;
                // Random formulas may refer to labels outside of the pool: skip those.
                let Some(want) = relink(&eb, &look, &mut undef) else { continue };
                if ea != want {
                    return fail(
                        "batch result differs",
                        format!("#{i} batch: {}\none by one: {}\nexpected: {}", a.mathml, b.mathml, want.show()),
                    );
                }
                if a.warnings.has_undefined_references() != undef {
                    return fail("batch reference warning", format!("#{i} {} expected {undef}", a.mathml));
                }
                if a.warnings.has_unknown_commands() != b.warnings.has_unknown_commands() {
                    return fail("batch unknown-command warning", format!("#{i} {}", a.mathml));
                }
            }
            _ => {
                return fail("batch outcome differs", format!("#{i}: {:?}\n{:?}", outcome(g), outcome(q)));
            }
        }
    }
    rec.nontrivial = ok >= 2 && interesting > 0;
    Ok(())
}

fn is_unknown(e: &LatexError) -> bool {
    e.error_message().starts_with("Unknown command")
}

fn swap_stand_in(e: &El, names: &mut Vec<String>, class: &str, bad: &mut bool) -> El {
    // The stand-in, with whatever spacing attributes.
    if e.name == "mo" && e.text() == "∃" {
        return El { name: "mo".into(), attrs: vec![], kids: e.kids.clone() };
    }
    // \\mathbin and friends put their spacing on a symbol itself: ignore it, on both sides.
    if e.name == "mpadded"
        && e.attrs.iter().all(|(k, v)| k == "style" && v.starts_with("padding"))
        && let [Node::El(m)] = &e.kids[..]
    {
        let inner = swap_stand_in(m, names, class, bad);
        if inner.name == "mo" && inner.text() == "∃" {
            return inner;
        }
        return El { name: e.name.clone(), attrs: e.attrs.clone(), kids: vec![Node::El(inner)] };
    }
    if e.name == "merror" {
        let t = e.text();
        if e.attr("class") != Some(class) || e.els().count() != 1 || e.kids.len() != 1 {
            *bad = true;
        }
        names.push(t);
        return El {
            name: "mo".into(),
            attrs: vec![],
            kids: vec![Node::Text("∃".into())],
        };
    }
    El {
        name: e.name.clone(),
        attrs: e.attrs.clone(),
        kids: e
            .kids
            .iter()
            .map(|k| match k {
                Node::El(c) => Node::El(swap_stand_in(c, names, class, bad)),
                Node::Text(t) => Node::Text(t.clone()),
            })
            .collect(),
    }
}

const UNKNOWN: &[&str] = &["zzq", "Foo", "sinn", "alphaa", "<", "zq", "ℵ", "9"];

fn c15(s: &mut Src, rec: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    c.pretty = 0;
    let d = cfg::disp(s);
    let t = match s.below(4) {
        0 => r#gen::mutated(s),
        1 => r#gen::math(s, Opts { noise: 15, ..FULL }),
        _ => r#gen::math(s, FULL),
    };
    let run = |t: &str, ig: bool, c: &mut Cfg| {
        c.ignore_unknown = ig;
        c.build().convert_with_local_state(t, d)
    };
    rec.input = format!("{} {} {t}", c.show(), dshow(d));
    rec.evals = 2;
    let off = run(&t, false, &mut c);
    let on = run(&t, true, &mut c);
    if let Ok(r) = &off
        && r.warnings.has_unknown_commands()
    {
        return fail("unknown-command warning when not ignoring", r.mathml.clone());
    }
    let unknown = matches!(&off, Err(e) if is_unknown(e));
    if unknown {
        // (A definition or a branch that is not taken may swallow the unknown command.)
        let known_to_swallow = ["\\newcommand", "\\renewcommand", "\\providecommand", "def", "\\let", "\\mathchoice"];
        if let Ok(r) = &on
            && !known_to_swallow.iter().any(|d| t.contains(d))
            && (!r.warnings.has_unknown_commands() || !r.mathml.contains("<merror"))
        {
            return fail("ignored unknown command leaves no trace", r.mathml.clone());
        }
        return Ok(());
    }
    if outcome(&off) != outcome(&on) {
        return fail(
            "ignoring unknown commands changes a formula without them",
            format!("off: {:?}\non: {:?}", outcome(&off), outcome(&on)),
        );
    }
    if off.is_err() {
        return Ok(());
    }
    // Plant.
    let toks = r#gen::tokens(&t);
    let k = s.long(1, 3);
    let mut at: Vec<usize> = (0..k).map(|_| s.usize(toks.len() + 1)).collect();
    at.sort_unstable();
    at.dedup();
    let names: Vec<&str> = at.iter().map(|_| s.pick(UNKNOWN)).collect();
    let build = |f: &dyn Fn(usize) -> String| {
        let mut o = String::new();
        for i in 0..=toks.len() {
            if let Some(j) = at.iter().position(|a| *a == i) {
                o.push_str(&f(j));
            }
            if i < toks.len() {
                o.push_str(&toks[i]);
            }
        }
        o
    };
    let known = build(&|_| "\\exists ".into());
    let planted = build(&|j| format!("\\{} ", names[j]));
    rec.input = format!("{} {} {planted}", c.show(), dshow(d));
    let base = run(&known, true, &mut c);
    let on = run(&planted, true, &mut c);
    let off = run(&planted, false, &mut c);
    rec.evals = 5;
    let Ok(base) = base else { return Ok(()) };
    let Ok(on) = on else {
        // A few places accept a symbol but not an unknown command (a \let right-hand side, ...).
        rec.label("planted rejected");
        return Ok(());
    };
    let e = parse(&on.mathml)?;
    if e.find_all("merror").is_empty() {
        // Planted in a definition that is never used, for example.
        rec.label("planted unused");
        if on.warnings.has_unknown_commands() {
            return fail("unknown-command warning without an unknown command", on.mathml);
        }
        return Ok(());
    }
    rec.nontrivial = true;
    rec.label("planted converted");
    if !on.warnings.has_unknown_commands() {
        return fail("no unknown-command warning", on.mathml);
    }
    match &off {
        Err(e) if is_unknown(e) => {}
        o => return fail("unknown command accepted", format!("{:?}", outcome(o))),
    }
    if ["command", "def", "\\let"].iter().any(|d| t.contains(d)) {
        // The planted name may have become part of a definition.
        rec.label("planted next to a definition");
        return Ok(());
    }
    let mut found = Vec::new();
    let mut bad = false;
    let class = c.unknown_css();
    let got = swap_stand_in(&e, &mut found, &class, &mut bad);
    if bad {
        return fail("unknown command rendering", on.mathml);
    }
    for f in &found {
        if !names.iter().any(|n| *f == format!("\\{n}")) {
            return fail("unknown command name", format!("{f:?} in {}", on.mathml));
        }
    }
    if !c.annotation && got != swap_stand_in(&parse(&base.mathml)?, &mut Vec::new(), &class, &mut bad) {
        return fail(
            "ignored unknown command disturbs the formula",
            format!("planted: {}\nknown:   {}", on.mathml, base.mathml),
        );
    }
    Ok(())
}
