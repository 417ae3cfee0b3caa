//! C29: the Python package, checked through the built extension module.

use super::*;
use crate::cfg;
use crate::engine::{Rec, Src, clip, verif_dir};
use crate::r#gen;
use serde_json::{Value, json};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::Mutex;
use std::sync::mpsc::{Receiver, channel};
use std::time::Duration;

struct Py {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
}

static PY: Mutex<Option<Py>> = Mutex::new(None);

fn start() -> Py {
    let mut child = Command::new("/opt/vp/pyvenv/bin/python")
        .arg(verif_dir().join("harness/pyworker.py"))
        .env("PYTHONPATH", verif_dir().join("target-ext/py"))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("NO_COLOR", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python");
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, lines) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Py { child, stdin, lines }
}

/// One request to the Python process; it is started again after a crash.
fn ask(req: &Value) -> Result<Vec<Value>, Fail> {
    let mut g = PY.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(start());
    }
    let py = g.as_mut().unwrap();
    let sent = writeln!(py.stdin, "{req}").and_then(|()| py.stdin.flush());
    let got = if sent.is_ok() { py.lines.recv_timeout(Duration::from_secs(30)).ok() } else { None };
    match got {
        Some(l) => {
            let v: Value = serde_json::from_str(&l).expect("answer");
            Ok(v.as_array().unwrap().clone())
        }
        None => {
            let st = match py.child.try_wait() {
                Ok(Some(s)) => format!("ended: {s}"),
                _ => "no answer in 30 s".into(),
            };
            let _ = py.child.kill();
            let _ = py.child.wait();
            *g = None;
            fail("the Python process died or hung", format!("{st}\n{}", clip(&req.to_string(), 800)))
        }
    }
}

fn fancy(e: &LatexError, name: &str, input: &str) -> String {
    let mut buf = vec![b'\n'];
    e.to_report(name, true)
        .write((name, ariadne::Source::from(input)), &mut buf)
        .expect("report");
    String::from_utf8(buf).expect("UTF-8")
}

fn plain(e: &LatexError, input: &str) -> String {
    let mut m = String::new();
    e.to_message(&mut m, input);
    m
}

const MACROS: &[(&str, &str)] = &[
    ("R", "\\mathbb{R}"),
    ("sq", "#1^2"),
    ("two", "\\frac{#1}{#2}"),
    ("é", "\\acute{e}"),
    ("later", "\\R+\\sq{x}"),
    ("loop", "\\loop x"),
    ("alpha", "A"),
    ("empty", ""),
];
const BAD_MACROS: &[(&str, &str)] = &[("bad", "{"), ("bad", "a\\nosuch"), ("é", "#0"), ("", "x"), ("a b", "x"), ("bad", "é\\frac{#1")];
const FORMULAS: &[&str] = &[
    "x",
    "\\R",
    "\\sq{y}",
    "\\two{1}{2}",
    "\\later",
    "\\loop",
    "\\alpha",
    "\\empty x",
    "é\\nosuch",
    "\\coloneqq",
    "\\begin{equation}\\label{e}x\\end{equation}",
    "\\begin{align}a&=b\\\\c&=d\\label{f}\\end{align}",
    "\\eqref{e}+\\eqref{f}",
    "\\def\\q{1}\\q",
    "\\global\\def\\q{2}",
    "\\q",
    "\\widetilde{x}",
    "x:=y",
    "}",
    "é{",
    "",
    "\u{0}",
    "\\text{é 中 😀}",
    "a & b",
    "\n\n x^",
];

fn c29(s: &mut Src, r: &mut Rec) -> Res {
    let mut c = cfg::any(s);
    // The package has no option for these.
    c.indent = cfg::Cfg::default().indent;
    c.unknown_class = None;
    if s.flip() {
        for _ in 0..s.long(1, 4) {
            let m = s.pick(MACROS);
            if !c.macros.iter().any(|x| x.0 == m.0) {
                c.macros.push((m.0.into(), m.1.into()));
            }
        }
        if s.chance(1, 6) {
            let m = s.pick(BAD_MACROS);
            c.macros.retain(|x| x.0 != m.0);
            c.macros.push((m.0.into(), m.1.into()));
        }
    }
    let go_on = s.flip();
    let is_fancy = s.flip();
    let d = cfg::Cfg::default();
    let mut kw = serde_json::Map::new();
    macro_rules! put {
        ($n:literal, $v:expr, $dflt:expr) => {
            if $v != $dflt || s.chance(1, 5) {
                kw.insert($n.into(), json!($v));
            }
        };
    }
    let pretty = ["never", "always", "auto"];
    put!("pretty_print", pretty[c.pretty as usize], "never");
    put!("xml_namespace", c.xmlns, d.xmlns);
    put!("continue_on_error", go_on, false);
    put!("ignore_unknown_commands", c.ignore_unknown, d.ignore_unknown);
    put!("annotation", c.annotation, d.annotation);
    put!("allow_unreliable_rendering", c.unreliable, d.unreliable);
    put!("global_group", c.global_group, d.global_group);
    put!("fancy_error", is_fancy, true);
    put!("unicode_substitution", if c.subst { "conventional" } else { "never" }, "conventional");
    put!("max_expansions", c.max_expansions, d.max_expansions);
    put!("id_prefix", c.id_prefix, d.id_prefix);
    if !c.macros.is_empty() {
        let mut m = serde_json::Map::new();
        for (k, v) in &c.macros {
            m.insert(k.clone(), json!(v));
        }
        // The order of the map is the order the package sees.
        c.macros = m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().into())).collect();
        kw.insert("macros".into(), Value::Object(m));
    } else if s.chance(1, 4) {
        kw.insert("macros".into(), if s.flip() { Value::Null } else { json!({}) });
    }
    let mut ill = None;
    if s.chance(1, 20) {
        let (k, v) = s.pick(&[
            ("pretty_print", "\"Always\""),
            ("pretty_print", "\"\""),
            ("pretty_print", "true"),
            ("unicode_substitution", "\"aggressive\""),
            ("unicode_substitution", "\"\""),
            ("unicode_substitution", "null"),
            ("max_expansions", "-1"),
            ("max_expansions", "4294967296"),
            ("max_expansions", "\"5\""),
            ("id_prefix", "3"),
            ("macros", "{\"a\": 1}"),
            ("macros", "[\"a\"]"),
            ("no_such_option", "1"),
        ]);
        kw.insert(k.into(), serde_json::from_str(v).unwrap());
        ill = Some(k);
    }
    let formula = |s: &mut Src| -> String {
        match s.weighted(&[5, 2, 1]) {
            0 => s.pick(FORMULAS).into(),
            1 => r#gen::math(s, r#gen::Opts { budget: 8, ..r#gen::FULL }),
            _ => {
                let (mut t, _) = r#gen::hostile(s);
                if t.len() > 400 {
                    let mut k = 400;
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t.truncate(k);
                }
                t
            }
        }
    };
    let n = s.long(1, 7);
    let mut ops: Vec<Value> = Vec::new();
    for _ in 0..n {
        ops.push(match s.weighted(&[16, 8, 6, 4, 2, 1]) {
            0 => json!(["global", formula(s), s.flip()]),
            1 => json!(["local", formula(s), s.flip()]),
            2 => {
                let mut v: Vec<Value> = (0..s.long(0, 4)).map(|_| json!([formula(s), s.flip()])).collect();
                // Sometimes behind many that can be converted.
                if s.chance(1, 4) {
                    let many = s.len(3, 14);
                    v.splice(0..0, (0..many).map(|i| json!([format!("x_{{{i}}}"), i % 2 == 0])));
                }
                json!(["all", v])
            }
            3 => json!(["reset"]),
            5 => json!(["threads", s.pick(&["global", "local"]), formula(s), s.flip()]),
            _ => json!([s.pick(&["surrogate", "number", "badall"])]),
        });
    }
    let req = json!({"kwargs": kw, "ops": ops});
    r.input = req.to_string();
    let got = ask(&req)?;
    let show = |v: &Value| clip(&v.to_string(), 700);
    if let Some(k) = ill {
        r.label("bad option");
        if got[0][0] != "err" || got[0][1] == "LatexError" {
            return fail(format!("a bad value for {k} is accepted"), show(&got[0]));
        }
        return Ok(());
    }
    let mut lib = match LatexToMathML::new(c.raw()) {
        Ok(l) => l,
        Err((e, i, src)) => {
            r.label("bad macro");
            r.nontrivial = true;
            let m = if is_fancy {
                fancy(&e, &format!("macro{i}"), &src)
            } else {
                format!("macro{i}:{}", plain(&e, &src))
            };
            if got[0] != json!(["err", "LatexError", m]) {
                return fail("a bad macro is not reported as it should be", format!("{m:?} expected\n{}", show(&got[0])));
            }
            return Ok(());
        }
    };
    if got[0] != json!(["ok", null]) {
        return fail("the constructor failed", show(&got[0]));
    }
    if got.len() != ops.len() + 1 {
        return fail("answers are missing", show(&json!(got)));
    }
    let disp = |b: &Value| if b == true { MathDisplay::Block } else { MathDisplay::Inline };
    let failed = |e: &LatexError, t: &str, i: Option<usize>| -> Value {
        let name = i.map_or("input".to_string(), |i| format!("input{i}"));
        let m = match (is_fancy, i) {
            (true, _) => fancy(e, &name, t),
            (false, Some(_)) => format!("{name}:{}", plain(e, t)),
            (false, None) => plain(e, t),
        };
        json!(["err", "LatexError", m])
    };
    for (op, got) in ops.iter().zip(&got[1..]) {
        let want = match op[0].as_str().unwrap() {
            k @ ("global" | "local") => {
                let (t, d) = (op[1].as_str().unwrap(), disp(&op[2]));
                let x = if k == "global" {
                    lib.convert_with_global_state(t, d)
                } else {
                    lib.convert_with_local_state(t, d)
                };
                match x {
                    Ok(x) => {
                        r.nontrivial = true;
                        json!(["ok", x.mathml])
                    }
                    Err(e) if go_on => json!(["ok", e.to_html(t, d, None)]),
                    Err(e) => {
                        r.label("LatexError");
                        failed(&e, t, None)
                    }
                }
            }
            "all" => {
                r.label("batch");
                let v: Vec<(&str, MathDisplay)> = op[1]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| (p[0].as_str().unwrap(), disp(&p[1])))
                    .collect();
                let mut out = Vec::new();
                let mut bad = None;
                for (i, x) in lib.convert_all(&v).into_iter().enumerate() {
                    match x {
                        Ok(x) => out.push(x.mathml.clone()),
                        Err(e) if go_on => out.push(e.to_html(v[i].0, v[i].1, None)),
                        Err(e) => {
                            bad.get_or_insert_with(|| failed(&e, v[i].0, Some(i)));
                        }
                    }
                }
                bad.unwrap_or(json!(["ok", out]))
            }
            "threads" => {
                // The same formula from several threads: in some order, what as many conversions one by one give.
                r.label("threads");
                let (t, d) = (op[2].as_str().unwrap(), disp(&op[3]));
                let mut want: Vec<String> = (0..6)
                    .map(|_| {
                        let x = if op[1] == "global" { lib.convert_with_global_state(t, d) } else { lib.convert_with_local_state(t, d) };
                        match x {
                            Ok(x) => json!(["ok", x.mathml]),
                            Err(e) if go_on => json!(["ok", e.to_html(t, d, None)]),
                            Err(e) => failed(&e, t, None),
                        }
                        .to_string()
                    })
                    .collect();
                let mut seen: Vec<String> = got[1].as_array().into_iter().flatten().map(Value::to_string).collect();
                want.sort();
                seen.sort();
                if seen != want {
                    return fail("threads give other results than one after another", format!("{}\nlibrary: {want:?}\npackage: {seen:?}", show(op)));
                }
                continue;
            }
            "reset" => {
                r.label("reset");
                lib.reset_global_state();
                json!(["ok", null])
            }
            _ => {
                // What is not text is refused and changes nothing.
                if got[0] != "err" || got[1] == "LatexError" {
                    return fail("an argument of a wrong type is accepted", show(got));
                }
                continue;
            }
        };
        if *got != want {
            return fail(
                format!("{} gives another result than the library", op[0].as_str().unwrap()),
                format!("{}\nlibrary: {}\npackage: {}", show(op), show(&want), show(got)),
            );
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "at least one conversion succeeds, or a bad macro is given",
        quick: 60_000,
        thorough: 2_000_000,
        enumerate: 0,
        run: c29,
        assumptions: &["The library, taken as the oracle, is checked by the other properties."],
    }]
}
