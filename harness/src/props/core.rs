//! Whole-converter properties on arbitrary input.

use super::*;
use crate::cfg::{self, Cfg};
use crate::engine::{Rec, Src};
use crate::r#gen;
use crate::mathml;
use std::fmt::Write;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is a configuration, and a history of 1-4 snippets (grammar-directed, with noise, mutated from the repository's own expressions, token soup, or truncated) sent through one converter by a random mix of entry points. Non-trivial: some snippet has at least 2 tokens and the history is not all rejected at its first character.",
            quick: 120_000,
            thorough: 3_000_000,
            enumerate: 0,
            run: c01,
            assumptions: &[
                "Nesting depth of generated input is bounded (about 60 levels); the recursive parser is run on a 1 GiB stack, so stack exhaustion by input nested thousands of levels deep is not explored.",
                "Macro expansion is generated with small bodies; input that grows exponentially within the expansion limit is not generated.",
            ],
        },
        Prop {
            id: "C02",
            rule: "A case is a configuration and one snippet seeded with markup metacharacters and canaries in every kind of string position (text, operator names, tags, labels, unknown commands, macro bodies). Non-trivial: the conversion succeeds.",
            quick: 150_000,
            thorough: 3_000_000,
            enumerate: 0,
            run: c02,
            assumptions: &["The configuration's CSS class names and id prefix are trusted strings, as documented."],
        },
        Prop {
            id: "C03",
            rule: "A case is a configuration and one grammar-directed snippet covering all constructs. Non-trivial: the conversion succeeds and the output has at least one element with required children.",
            quick: 150_000,
            thorough: 3_000_000,
            enumerate: 0,
            run: c03,
            assumptions: &["The content model is the one of MathML Core plus menclose, as listed in harness/src/mathml.rs."],
        },
        Prop {
            id: "C04",
            rule: "A case is a configuration and one snippet made invalid (noise, mutation, truncation). Non-trivial: the conversion reports an error.",
            quick: 150_000,
            thorough: 3_000_000,
            enumerate: 0,
            run: c04,
            assumptions: &[],
        },
    ]
}

fn show(c: &Cfg, d: MathDisplay, s: &str) -> String {
    format!("{} {} {s}", c.show(), dshow(d))
}

const INTERNAL: &str = "Internal parser error";

fn no_internal(r: &Result<ConvertResult, Box<LatexError>>, s: &str) -> Res {
    if let Err(e) = r
        && e.error_message().contains(INTERNAL)
    {
        return fail("internal parser error", format!("{s} gives {e:?}"));
    }
    Ok(())
}

fn c01(s: &mut Src, rec: &mut Rec) -> Res {
    let c = cfg::any(s);
    let n = s.long(1, 4);
    let mut snippets = Vec::new();
    for _ in 0..n {
        let (t, l) = r#gen::hostile(s);
        rec.label(l);
        snippets.push((t, cfg::disp(s)));
    }
    rec.input = c.show();
    for (t, d) in &snippets {
        let _ = write!(rec.input, "\n{}: {t}", dshow(*d));
    }
    let mut conv = c.build();
    let mut any_ok = false;
    for (t, d) in &snippets {
        rec.evals += 1;
        let r = match s.below(4) {
            0 => {
                conv.reset_global_state();
                conv.convert_with_local_state(t, *d)
            }
            1 => conv.convert_with_local_state(t, *d),
            _ => conv.convert_with_global_state(t, *d),
        };
        no_internal(&r, t)?;
        match &r {
            Ok(r) => {
                any_ok = true;
                rec.label("converted");
                if !r.mathml.starts_with("<math") || !r.mathml.ends_with("</math>") {
                    return fail("not a math element", r.mathml.clone());
                }
            }
            Err(e) => {
                rec.label("rejected");
                if e.0.start > 0 {
                    any_ok = true;
                }
            }
        }
    }
    if snippets.len() > 1 {
        let all: Vec<(&str, MathDisplay)> = snippets.iter().map(|(t, d)| (t.as_str(), *d)).collect();
        let r = conv.convert_all(&all);
        rec.evals += 1;
        if r.len() != all.len() {
            return fail("convert_all length", format!("{} for {}", r.len(), all.len()));
        }
        for (r, (t, _)) in r.iter().zip(&all) {
            no_internal(r, t)?;
        }
    }
    // A configuration macro with hostile name and body is accepted or rejected, never worse.
    if s.chance(1, 4) {
        let (body, _) = r#gen::hostile(s);
        let name = s
            .pick(&["foo", "f", "\\foo", "", "1", "f1", "é", "foo bar", "text", "alpha", "@", "{", "*"])
            .to_string();
        let mut c2 = c.clone();
        c2.macros = vec![(name, body)];
        let _ = write!(rec.input, "\nmacro {:?}", c2.macros);
        rec.evals += 1;
        match LatexToMathML::new(c2.raw()) {
            Ok(conv) => {
                rec.label("config macro accepted");
                let r = conv.convert_with_local_state("\\foo{a}{b} \\f{a}", MathDisplay::Block);
                no_internal(&r, &rec.input)?;
            }
            Err(e) => {
                rec.label("config macro rejected");
                if e.1 != 0 || e.2 != c2.macros[0].1 {
                    return fail("macro error attribution", format!("{e:?}"));
                }
                if e.0.error_message().contains(INTERNAL) {
                    return fail("internal parser error", format!("{e:?}"));
                }
            }
        }
    }
    rec.nontrivial = any_ok && snippets.iter().any(|(t, _)| r#gen::tokens(t).len() >= 2);
    Ok(())
}

/// Strings that would be markup if they got out unescaped.
const CANARY: &[&str] = &[
    "<canary>", "</math>", "&canary;", "\"canary\"", "'canary'", "<canary/>", "\">", "<!--", "]]>",
    "&lt;", "&", "<", ">", "<script>",
];

fn canary(s: &mut Src, special: bool) -> String {
    let c = s.pick(CANARY);
    if special { c.to_string() } else { c.replace('&', "\\&") }
}

fn injected(s: &mut Src) -> String {
    let mut out = String::new();
    let n = s.len(1, 4);
    for _ in 0..n {
        match s.below(14) {
            0 => {
                let t = s.pick(crate::cmds::TEXT);
                let k = canary(s, false);
                let _ = write!(out, "\\{t}{{{k}}}");
            }
            1 => {
                let t = s.pick(crate::cmds::OPERATOR_NAME);
                let k = canary(s, true).replace('&', "");
                let _ = write!(out, "\\{t}{{{k}}}");
            }
            2 => {
                let k = canary(s, true);
                let _ = write!(out, "\\begin{{align}}a\\tag{{{k}}}\\label{{{k}}}\\\\b\\label{{x}}\\end{{align}}\\eqref{{{k}}}");
            }
            3 => {
                let k = s.pick(&["<", ">", "\"", "&", "'", "foo", "foo*", "<>", "été", "lt;", "/", "!--"]);
                let _ = write!(out, "\\{k}");
            }
            4 => {
                let k = canary(s, false);
                out.push_str(&k);
            }
            5 => {
                let k = canary(s, true).replace('&', "");
                let t = s.pick(crate::cmds::TRANSFORM);
                let _ = write!(out, "\\{t}{{{k}}}");
            }
            6 => {
                let k = canary(s, false);
                let _ = write!(out, "\\newcommand\\zz[1]{{#1\\text{{{k}#1}}}}\\zz{{{k}}}");
            }
            7 => {
                let k = canary(s, true).replace('&', "");
                let _ = write!(out, "\\not{{{k}}}\\left<{k}\\right>");
            }
            8 => {
                let k = canary(s, true);
                let _ = write!(out, "\\begin{{{k}}}x\\end{{{k}}}");
            }
            9 => {
                let k = canary(s, true);
                let _ = write!(out, "\\hspace{{{k}}}\\color{{{k}}}\\begin{{array}}{{{k}}}\\end{{array}}");
            }
            10 => {
                let k = canary(s, false);
                let _ = write!(out, "\\raisebox{{1em}}{{{k}}}\\fbox{{{k}}}\\underbar{{{k}}}");
            }
            11 => {
                let k = s.pick(&["<", ">", "&", "\"", "'"]);
                let _ = write!(out, "\\not{k}\\big{k}\\mathrel{k}\\overset{k}{k}\\operatorname*{{{k}}}");
            }
            12 => {
                let t = r#gen::math(s, r#gen::Opts { budget: 10, ..r#gen::FULL });
                out.push_str(&t);
            }
            _ => {
                let k = s.pick(&["<", ">", "\"", "'", "<b>"]);
                let _ = write!(out, "\\text{{\\textbf{{{k}}}\\'{k}\\sout{{{k}}}}}");
            }
        }
    }
    out
}

fn c02(s: &mut Src, rec: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    c.annotation = s.chance(1, 4);
    let d = cfg::disp(s);
    let (t, l) = if s.chance(2, 3) {
        (injected(s), "injected")
    } else {
        r#gen::hostile(s)
    };
    rec.label(l);
    rec.input = show(&c, d, &t);
    let Ok(r) = c.build().convert_with_local_state(&t, d) else {
        rec.label("rejected");
        return Ok(());
    };
    rec.nontrivial = true;
    let m = parse(&r.mathml)?;
    // No element or attribute beyond the fixed vocabulary: markup in the source stays text.
    let mut extra = None;
    m.walk(&mut |e| {
        const NAMES: &[&str] = &[
            "math", "semantics", "annotation", "mn", "mi", "mo", "mtext", "mspace", "mrow", "mfrac", "msub",
            "msup", "mroot", "mover", "munder", "msubsup", "munderover", "mmultiscripts", "mprescripts",
            "msqrt", "mpadded", "mphantom", "mtable", "mtr", "mtd", "menclose", "merror", "b", "i", "em",
            "code", "span", "s", "u", "a",
        ];
        const ATTRS: &[&str] = &[
            "xmlns", "display", "encoding", "mathvariant", "stretchy", "movablelimits", "form", "symmetric",
            "largeop", "lspace", "rspace", "minsize", "maxsize", "style", "width", "class", "displaystyle",
            "scriptlevel", "linethickness", "accent", "accentunder", "height", "voffset", "id", "notation",
            "href",
        ];
        if !NAMES.contains(&e.name.as_str()) {
            extra = Some(format!("element {}", e.name));
        }
        for (k, v) in &e.attrs {
            if !ATTRS.contains(&k.as_str()) {
                extra = Some(format!("attribute {k}"));
            }
            if v.contains("canary") && k != "id" && k != "href" {
                extra = Some(format!("source text in attribute {k}"));
            }
            if k == "href" && !v.starts_with('#') && !v.starts_with("https://") {
                extra = Some("href scheme".to_string());
            }
        }
    });
    if let Some(x) = extra {
        return fail(format!("foreign markup: {x}"), r.mathml);
    }
    Ok(())
}

fn c03(s: &mut Src, rec: &mut Rec) -> Res {
    let c = cfg::any(s);
    let d = cfg::disp(s);
    let (t, l) = match s.below(3) {
        0 => r#gen::hostile(s),
        1 => (r#gen::math(s, r#gen::Opts { noise: 10, ..r#gen::FULL }), "grammar+noise"),
        _ => (r#gen::math(s, r#gen::FULL), "grammar"),
    };
    rec.label(l);
    rec.input = show(&c, d, &t);
    let Ok(r) = c.build().convert_with_local_state(&t, d) else {
        rec.label("rejected");
        return Ok(());
    };
    rec.label("converted");
    let Ok(m) = xml::parse(&r.mathml) else {
        // C02's business.
        rec.label("not well-formed");
        return Ok(());
    };
    let css = c.unknown_css();
    if let Err((sig, e)) = mathml::check(&m, &mathml::Opts { unknown_class: &css }) {
        return fail(sig, format!("{e}\nin {}", r.mathml));
    }
    let mut n = 0;
    m.walk(&mut |e| {
        if e.els().next().is_some() {
            n += 1;
        }
        match e.name.as_str() {
            "mtable" => rec.label("mtable"),
            "mmultiscripts" => rec.label("mmultiscripts"),
            "munderover" => rec.label("munderover"),
            "msubsup" => rec.label("msubsup"),
            "mfrac" => rec.label("mfrac"),
            "mroot" => rec.label("mroot"),
            "menclose" => rec.label("menclose"),
            "mpadded" => rec.label("mpadded"),
            "merror" => rec.label("merror"),
            "mphantom" => rec.label("mphantom"),
            "semantics" => rec.label("semantics"),
            _ => {}
        }
    });
    rec.nontrivial = n > 1;
    Ok(())
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<")
        .replace("&gt;", ">")
        .replace("&quot;", "\"")
        .replace("&#39;", "'")
        .replace("&amp;", "&")
}

pub fn check_error(e: &LatexError, t: &str, d: MathDisplay) -> Res {
    let (a, b) = (e.0.start, e.0.end);
    if a > b {
        return fail("span reversed", format!("{:?} {}", e.0, e.error_message()));
    }
    if b > t.len() {
        return fail(
            "span beyond the input",
            format!("{:?} of {} {}", e.0, t.len(), e.error_message()),
        );
    }
    if !t.is_char_boundary(a) || !t.is_char_boundary(b) {
        return fail("span splits a character", format!("{:?} {}", e.0, e.error_message()));
    }
    let msg = e.error_message();
    if msg.trim().is_empty() || e.label().is_empty() {
        return fail("empty message", format!("{:?}", e.0));
    }
    if msg.contains(INTERNAL) {
        return fail("internal parser error", format!("{:?}", e.0));
    }
    let mut m = String::new();
    e.to_message(&mut m, t);
    let want = format!("{}: {msg}", t[..a].chars().count());
    if m != want {
        return fail("message offset", format!("{m:?}, expected {want:?}"));
    }
    for css in [None, Some("c1 c2")] {
        let h = e.to_html(t, d, css);
        let tag = if d == MathDisplay::Block { "p" } else { "span" };
        let open = format!("<{tag} class=\"{}\" title=\"", css.unwrap_or("math-core-error"));
        let close = format!("</code></{tag}>");
        let Some(rest) = h.strip_prefix(&open).and_then(|r| r.strip_suffix(&close)) else {
            return fail("error html shape", h);
        };
        let Some((title, code)) = rest.split_once("\"><code>") else {
            return fail("error html shape", h);
        };
        if title.contains('"') || unescape(title) != want {
            return fail("error html title", h);
        }
        if code.contains('<') || code.contains('>') || unescape(code) != t {
            return fail("error html code", h);
        }
    }
    let mut buf = Vec::new();
    let rep = e.to_report("snippet", false);
    if rep.write(("snippet", ariadne::Source::from(t)), &mut buf).is_err() {
        return fail("report", "io error");
    }
    let rep = String::from_utf8_lossy(&buf);
    if !rep.contains(msg.lines().next().unwrap_or("")) {
        return fail("report lacks the message", rep);
    }
    Ok(())
}

fn c04(s: &mut Src, rec: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    let d = cfg::disp(s);
    if s.chance(1, 4) {
        let mut body = r#gen::math(s, r#gen::Opts { budget: 6, noise: 60, ..r#gen::FULL });
        if s.flip() {
            body.push_str("{#1 é}");
        }
        c.macros = vec![("foo".into(), body)];
        if let Err(e) = LatexToMathML::new(c.raw()) {
            rec.input = show(&c, d, "");
            rec.nontrivial = true;
            rec.label("config macro error");
            return check_error(&e.0, &e.2, d);
        }
    }
    let (mut t, l) = match s.below(3) {
        0 => {
            let (mut t, l) = r#gen::hostile(s);
            if s.flip() {
                let i = s.usize(t.len() + 1);
                let i = (0..=i).rev().find(|i| t.is_char_boundary(*i)).unwrap();
                let x = s.pick(&["é", "\\frac", "}", "{", "&", "\\foo", "_", "\\left", "\\hspace{x}", "$", "😀"]);
                t.insert_str(i, x);
            }
            (t, l)
        }
        1 => (r#gen::mutated(s), "mutated"),
        _ => (
            r#gen::math(s, r#gen::Opts { noise: 150, layout: true, ..r#gen::FULL }),
            "grammar+noise",
        ),
    };
    if s.chance(1, 8) {
        t = format!("\\foo{{{t}}}");
    }
    if s.chance(1, 60) {
        // Far from the start.
        let x = s.pick(&["a\n", "é", "x+", "\n", "{b} ", "%c\n", "😀\r\n", "\t"]);
        let n = s.pick(&[20usize, 90, 300, 1100, 5000, 33000]);
        let n = n + s.usize(n);
        t.insert_str(0, &x.repeat(n));
        rec.label("far from the start");
    }
    rec.label(l);
    rec.input = show(&c, d, &t);
    let Err(e) = c.build().convert_with_local_state(&t, d) else {
        rec.label("converted");
        return Ok(());
    };
    rec.nontrivial = true;
    check_error(&e, &t, d)
}
