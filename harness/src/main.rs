mod cfg;
#[allow(dead_code)]
mod cmds;
mod engine;
mod r#gen;
mod mathml;
mod props;
mod palette;
mod umath;
mod unidata;
mod xml;

use std::path::Path;

fn try_it(args: &[String]) {
    let mut c = cfg::Cfg::default();
    let mut d = math_core::MathDisplay::Block;
    for a in args {
        match a.as_str() {
            "-i" => c.ignore_unknown = true,
            "-p" => c.pretty = 1,
            "-I" => d = math_core::MathDisplay::Inline,
            "-u" => c.unreliable = true,
            "-g" => c.global_group = true,
            "-s" => c.subst = false,
            "-a" => c.annotation = true,
            _ => {
                if let Some((n, b)) = a.strip_prefix("-m").and_then(|m| m.split_once('=')) {
                    c.macros.push((n.into(), b.into()));
                    continue;
                }
                let r = engine::guarded(|| c.build().convert_with_local_state(a, d));
                match r {
                    Ok(Ok(r)) => println!("{a}\n   OK {}", r.mathml),
                    Ok(Err(e)) => println!("{a}\n   ERR {:?} {}", e.0, e.error_message()),
                    Err(e) => println!("{a}\n   PANIC {e:?}"),
                }
            }
        }
    }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    engine::install_hook();
    match args.first().map(String::as_str) {
        Some("run") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            engine::run_check(find(&args[1]), tier, seed)
        }
        Some("worker") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            engine::worker(find(&args[1]), n(2), n(3), n(4), n(5), Path::new(&args[6]), n(7));
            0
        }
        Some("iso") => engine::iso(find(&args[1]), &args[2]),
        Some("draws") => {
            engine::draws(find(&args[1]), &args[2], &args[3]);
            0
        }
        Some("replay") => engine::replay(&props, &args[1]),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("try") => {
            try_it(&args[1..]);
            0
        }
        _ => {
            eprintln!("usage: mcheck run ID | replay FILE | list | try LATEX...");
            2
        }
    }
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(real_main)
        .unwrap();
    std::process::exit(h.join().unwrap_or(101));
}
