//! The vocabulary and content model the output must stay within.

use crate::xml::{El, Node};

type R = Result<(), (String, String)>;

fn bad<T>(sig: impl Into<String>, e: &El) -> Result<T, (String, String)> {
    Err((sig.into(), crate::engine::clip(&e.show(), 400)))
}

fn number(s: &str) -> bool {
    let s = s.strip_prefix('-').unwrap_or(s);
    let mut parts = s.splitn(2, '.');
    let a = parts.next().unwrap_or("");
    let b = parts.next();
    (!a.is_empty() || b.is_some_and(|b| !b.is_empty()))
        && a.bytes().all(|c| c.is_ascii_digit())
        && b.is_none_or(|b| !b.is_empty() && b.bytes().all(|c| c.is_ascii_digit()))
}

pub fn css_length(s: &str) -> bool {
    if s == "0" || s == "-0" {
        return true;
    }
    ["rem", "em", "ex", "px", "pt", "pc", "cm", "mm", "in", "Q", "%"]
        .iter()
        .any(|u| s.strip_suffix(u).is_some_and(number))
}

fn bool_attr(v: &str) -> bool {
    v == "true" || v == "false"
}

fn style_ok(v: &str) -> bool {
    // `a: b;c: d` with a fixed set of properties and harmless values.
    const PROPS: &[&str] = &[
        "color",
        "math-shift",
        "padding-left",
        "padding-right",
        "padding-top",
        "padding-bottom",
        "margin-left",
        "width",
        "border-left",
        "border-right",
        "border-top",
        "text-align",
        "justify-items",
        "font-size",
        "font-variant-caps",
    ];
    let v = v.strip_suffix(';').unwrap_or(v);
    !v.is_empty()
        && v.split(';').all(|d| {
            d.split_once(':').is_some_and(|(p, val)| {
                let val = val.trim();
                PROPS.contains(&p.trim())
                    && !val.is_empty()
                    && match p.trim() {
                        "color" => {
                            val.len() == 7
                                && val.starts_with('#')
                                && val[1..].bytes().all(|b| b.is_ascii_hexdigit())
                        }
                        "width" | "margin-left" | "padding-left" | "padding-right"
                        | "padding-top" | "padding-bottom" | "font-size" => css_length(val),
                        _ => val
                            .bytes()
                            .all(|b| b.is_ascii_alphanumeric() || b" .-".contains(&b)),
                    }
            })
        })
}

/// Unknown-command class name, configured by the user.
pub struct Opts<'a> {
    pub unknown_class: &'a str,
}

pub fn check(math: &El, o: &Opts) -> R {
    if math.name != "math" {
        return bad("root is not math", math);
    }
    for (k, v) in &math.attrs {
        match (k.as_str(), v.as_str()) {
            ("xmlns", "http://www.w3.org/1998/Math/MathML") | ("display", "block") => {}
            _ => return bad("attribute on math", math),
        }
    }
    if math.has_text() {
        return bad("text directly in math", math);
    }
    let sem: Vec<&El> = math.els().filter(|e| e.name == "semantics").collect();
    if sem.is_empty() {
        for k in math.els() {
            presentation(k, o)?;
        }
        return Ok(());
    }
    if math.els().count() != 1 || !sem[0].attrs.is_empty() || sem[0].has_text() {
        return bad("semantics shape", math);
    }
    let kids: Vec<&El> = sem[0].els().collect();
    if kids.len() != 2 || kids[1].name != "annotation" {
        return bad("semantics needs presentation + annotation", math);
    }
    presentation(kids[0], o)?;
    let a = kids[1];
    if a.els().next().is_some()
        || a.attrs != vec![("encoding".to_string(), "application/x-tex".to_string())]
    {
        return bad("annotation shape", a);
    }
    Ok(())
}

fn presentation(e: &El, o: &Opts) -> R {
    let n = e.els().count();
    let leaf = |e: &El| e.els().next().is_none();
    // (allowed attributes, arity)
    let (attrs, arity): (&[&str], Option<usize>) = match e.name.as_str() {
        "mn" => (&[], Some(0)),
        "mi" => (&["mathvariant"], Some(0)),
        "mo" => (
            &[
                "stretchy",
                "movablelimits",
                "form",
                "symmetric",
                "largeop",
                "lspace",
                "rspace",
                "minsize",
                "maxsize",
            ],
            Some(0),
        ),
        "mtext" => (&["style"], None),
        "mspace" => (&["width", "style"], Some(0)),
        "mrow" => (&["style", "class", "displaystyle", "scriptlevel"], None),
        "mfrac" => (
            &["linethickness", "displaystyle", "scriptlevel", "style"],
            Some(2),
        ),
        "msub" | "msup" | "mroot" => (&[], Some(2)),
        "mover" => (&["accent"], Some(2)),
        "munder" => (&["accentunder"], Some(2)),
        "msubsup" | "munderover" => (&[], Some(3)),
        "mmultiscripts" => (&[], None),
        "msqrt" => (&[], None),
        "mpadded" => (&["width", "height", "voffset", "style"], None),
        "mphantom" => (&[], None),
        "mtable" => (&["displaystyle", "scriptlevel", "style"], None),
        "menclose" => (&["notation"], None),
        "merror" => (&["class"], Some(1)),
        _ => return bad(format!("element {} not allowed here", e.name), e),
    };
    for (k, v) in &e.attrs {
        if !attrs.contains(&k.as_str()) {
            return bad(format!("attribute {k} on {}", e.name), e);
        }
        let ok = match k.as_str() {
            "stretchy" | "movablelimits" | "symmetric" | "largeop" | "accent" | "accentunder"
            | "displaystyle" => bool_attr(v),
            "scriptlevel" => matches!(v.as_str(), "0" | "1" | "2"),
            "form" => matches!(v.as_str(), "prefix" | "infix" | "postfix"),
            "mathvariant" => v == "normal",
            "lspace" | "rspace" | "minsize" | "maxsize" | "linethickness" | "voffset"
            | "width" | "height" => css_length(v),
            "style" => style_ok(v),
            "class" if e.name == "merror" => v == o.unknown_class,
            "class" => matches!(
                v.as_str(),
                "menclose-phasorangle" | "menclose-updiagonalstrike" | "menclose-downdiagonalstrike"
            ),
            "notation" => {
                !v.is_empty()
                    && v.split(' ').all(|t| {
                        matches!(
                            t,
                            "box"
                                | "actuarial"
                                | "phasorangle"
                                | "updiagonalstrike"
                                | "downdiagonalstrike"
                        )
                    })
            }
            _ => false,
        };
        if !ok {
            return bad(format!("value of {k} on {}", e.name), e);
        }
    }
    if let Some(a) = arity
        && a != n
    {
        return bad(format!("{} has {n} children", e.name), e);
    }
    match e.name.as_str() {
        "mn" | "mi" | "mo" => {
            // `\operatorname{}` legitimately gives an empty operator.
            if e.text().is_empty() && e.name != "mo" {
                return bad(format!("empty {}", e.name), e);
            }
            if !leaf(e) {
                return bad("token element with children", e);
            }
        }
        "mspace" => {
            if !e.kids.is_empty() {
                return bad("mspace with content", e);
            }
        }
        "mtext" => {
            for k in &e.kids {
                if let Node::El(k) = k {
                    html(k)?;
                }
            }
        }
        "merror" => {
            if e.has_text() || e.els().next().unwrap().name != "mtext" || !leaf(e.els().next().unwrap())
            {
                return bad("merror shape", e);
            }
        }
        "mmultiscripts" => {
            let kids: Vec<&El> = e.els().collect();
            if kids.is_empty() || e.has_text() {
                return bad("mmultiscripts shape", e);
            }
            let sep: Vec<usize> = (0..kids.len())
                .filter(|i| kids[*i].name == "mprescripts")
                .collect();
            let ok = match sep.as_slice() {
                [] => (kids.len() - 1).is_multiple_of(2),
                [s] => {
                    kids[*s].kids.is_empty()
                        && kids[*s].attrs.is_empty()
                        && *s >= 1
                        && (s - 1).is_multiple_of(2)
                        && (kids.len() - s - 1).is_multiple_of(2)
                }
                _ => false,
            };
            if !ok {
                return bad("mmultiscripts script count", e);
            }
            for k in kids {
                if k.name != "mprescripts" {
                    presentation(k, o)?;
                }
            }
        }
        "mtable" => {
            if e.has_text() {
                return bad("text in mtable", e);
            }
            for r in e.els() {
                if r.name != "mtr" || !r.attrs.is_empty() || r.has_text() {
                    return bad("mtable child is not a plain mtr", r);
                }
                for d in r.els() {
                    if d.name != "mtd" || d.has_text() {
                        return bad("mtr child is not mtd", d);
                    }
                    for (k, v) in &d.attrs {
                        match k.as_str() {
                            "style" if style_ok(v) => {}
                            "id" => {}
                            _ => return bad(format!("attribute {k} on mtd"), d),
                        }
                    }
                    for c in d.els() {
                        presentation(c, o)?;
                    }
                }
            }
        }
        _ => {
            if e.has_text() {
                return bad(format!("text directly in {}", e.name), e);
            }
            for k in e.els() {
                presentation(k, o)?;
            }
        }
    }
    Ok(())
}

/// Phrasing HTML inside `mtext`.
fn html(e: &El) -> R {
    let ok = match e.name.as_str() {
        "b" | "i" | "em" | "code" | "s" | "u" => e.attrs.is_empty(),
        "span" => {
            e.attrs.len() == 1
                && match e.attrs[0].0.as_str() {
                    "style" => style_ok(&e.attrs[0].1),
                    "class" => matches!(
                        e.attrs[0].1.as_str(),
                        "math-core-sans-serif-font" | "math-core-serif-font"
                    ),
                    _ => false,
                }
        }
        "a" => e.attrs.len() == 1 && e.attrs[0].0 == "href",
        _ => false,
    };
    if !ok {
        return bad(format!("html element {} in mtext", e.name), e);
    }
    for k in e.els() {
        html(k)?;
    }
    Ok(())
}
