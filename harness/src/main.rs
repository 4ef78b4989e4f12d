mod alloc;
mod conv;
mod exercise;
mod gen;
mod hostile;
mod print;
mod props;
mod rng;
mod runner;
mod synth;
mod tree;
use rng::Rng;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: u64| arg(&a, k).and_then(|s| s.parse().ok()).unwrap_or(d);
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = a[2].as_str();
            let f = props::table().into_iter().find(|(n, _)| *n == prop).expect("property").1;
            let o = runner::Opts {
                seed: num("--seed", 1),
                threads: num("--threads", 8) as usize,
                cases: num("--cases", u64::MAX),
                secs: arg(&a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0),
                state: arg(&a, "--state").unwrap_or_else(|| "/tmp".into()),
                only: arg(&a, "--only").and_then(|s| s.parse().ok()),
                thorough: a.iter().any(|x| x == "--thorough"),
                slow: a.iter().any(|x| x == "--slow"),
                hang_secs: num("--hang", 60),
            };
            if let Some(f) = arg(&a, "--trees") {
                props::pieces::load(&f);
            }
            alloc::CAP.store(num("--cap-mb", 1536) as usize * 1024 * 1024, std::sync::atomic::Ordering::Relaxed);
            let v = runner::run(prop, f, &o);
            let s = serde_json::to_string(&v).unwrap();
            match arg(&a, "--out") {
                Some(p) => std::fs::write(p, s).unwrap(),
                None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
            }
        }
        Some("dump") => {
            // programs as JSON lines for the cross-check with an independent parser
            let n = num("--n", 100);
            let from = num("--from", 0);
            let mode = arg(&a, "--mode").unwrap_or_default();
            use std::io::Write;
            let so = std::io::stdout();
            let mut so = std::io::BufWriter::new(so.lock());
            for i in from..from + n {
                let mut r = Rng::stream(num("--seed", 1), 3, i);
                let tr = if mode == "wide" { gen::wide(&mut r) } else { gen::program(&mut r, i, a.iter().any(|x| x == "--big")) };
                let st = props::style(&mut r);
                let p = print::print(&tr, st, print::Layout::Wild, &mut r);
                let mut v = serde_json::json!({"src": p.src, "tree": tr.json(), "module": tr.c.iter().any(|s| s.is(tree::K::Import))});
                if mode == "print" {
                    match ratel::parse(&p.src) {
                        Ok(m) if tree::diff(&tr, &conv::module(&m)).is_none() => {
                            v["min"] = ratel_codegen::codegen(&m, true).into();
                            v["pretty"] = ratel_codegen::codegen(&m, false).into();
                        }
                        _ => v["skip"] = true.into(),
                    }
                }
                writeln!(so, "{}", v).unwrap();
            }
        }
        Some("pieces") => {
            // stdin: {"src", "tree" (of an independent parser), "module"}; stdout: what became of it
            let out = arg(&a, "--out").expect("--out");
            let judge = a.iter().any(|x| x == "--judge");
            std::thread::Builder::new().stack_size(1 << 30).spawn(move || props::pieces::run(&out, judge)).unwrap().join().unwrap();
        }
        Some("show") => {
            // prints each line of the input, both ways
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                match ratel::parse(&l) {
                    Ok(m) => println!("{}\n{}", ratel_codegen::codegen(&m, true), ratel_codegen::codegen(&m, false)),
                    Err(e) => println!("rejected: {:?}", e),
                }
            }
        }
        Some("stack") => props::stack::child(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()),
        Some("texts") => {
            // short texts for slow instruments, one JSON string per line
            let (n, max) = (num("--n", 100), num("--max", 60) as usize);
            let mut i = num("--from", 0);
            let mut left = n;
            while left > 0 {
                let mut r = Rng::stream(num("--seed", 1), 77, i);
                let s = if i % 2 == 0 { hostile::valid(&mut r) } else { hostile::text(&mut r, 1, false).0 };
                i += 1;
                if s.len() <= max {
                    println!("{}", serde_json::to_string(&s).unwrap());
                    left -= 1;
                }
            }
        }
        _ => {
            eprintln!("usage: ratelmon run PROP | dump");
            std::process::exit(2);
        }
    }
}
