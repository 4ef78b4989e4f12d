//! Code people wrote: pieces of the JavaScript installed here, with their trees according to acorn.
//! The parser's tree must be that tree, and so must the trees of what is printed (js/judge.js).
use super::*;
use std::io::{BufRead, Write};

fn read(v: &mut std::slice::Iter<serde_json::Value>) -> T {
    let k = kind(v.next().unwrap().as_str().unwrap());
    let s = v.next().unwrap().as_str().unwrap();
    let n = v.next().unwrap().as_u64().unwrap();
    t(k, s, (0..n).map(|_| read(v)).collect())
}

fn kind(s: &str) -> K {
    thread_local! {
        static MAP: std::collections::HashMap<String, K> = ALL.iter().map(|k| (format!("{:?}", k), *k)).collect();
    }
    MAP.with(|m| *m.get(s).unwrap_or_else(|| panic!("kind {}", s)))
}

/// The trees of pieces, as programs for the other monitors
pub fn load(files: &str) {
    let hs: Vec<_> = files
        .split(',')
        .map(str::to_string)
        .map(|f| {
            std::thread::Builder::new()
                .stack_size(1 << 28)
                .spawn(move || {
                    let f = std::fs::File::open(&f).unwrap_or_else(|e| panic!("{}: {}", f, e));
                    std::io::BufReader::new(f)
                        .lines()
                        .map(|l| {
                            let v: serde_json::Value = serde_json::from_str(&l.unwrap()).unwrap();
                            read(&mut v["tree"].as_array().unwrap().iter())
                        })
                        .collect::<Vec<T>>()
                })
                .unwrap()
        })
        .collect();
    let trees = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    gen::CORPUS.set(trees).ok().unwrap();
}

pub fn run(out: &str, judge: bool) {
    let mut bads: Vec<serde_json::Value> = vec![];
    let (mut n, mut skipped, mut nodes, mut bytes) = (0u64, 0u64, 0u64, 0u64);
    let mut distinct = std::collections::HashSet::new();
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    let mut samples = vec![];
    for line in std::io::stdin().lock().lines() {
        let mut v: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        let src = v["src"].as_str().unwrap().to_string();
        let tree = read(&mut v["tree"].as_array().unwrap().iter());
        n += 1;
        current(&src);
        let mut bad = |kind: String, msg: String| {
            if bads.len() < 200 {
                bads.push(serde_json::json!({"kind": kind, "idx": n, "count": 1, "msg": msg, "input": src}));
            }
        };
        let r = std::panic::catch_unwind(|| {
            let m = match ratel::parse(&src) {
                Ok(m) => m,
                Err(e) => {
                    let from = (e[0].start as usize).saturating_sub(60);
                    let from = (0..=from).rev().find(|i| src.is_char_boundary(*i)).unwrap_or(0);
                    let near: String = src[from..].chars().take(120).collect();
                    return Err((format!("rejected: {:?}", e[0].token), format!("valid code was rejected: {:?} near {:?}", e[0], near)));
                }
            };
            if let Some(d) = diff(&tree, &conv::module(&m)) {
                return Err((diff_kind(&d), d));
            }
            Ok(judge.then(|| (ratel_codegen::codegen(&m, true), ratel_codegen::codegen(&m, false))))
        });
        match r {
            Ok(Ok(printed)) => {
                nodes += tree.count() as u64;
                bytes += src.len() as u64;
                distinct.insert(tree.hash());
                if src.len() > 100 && src.len() < 500 && samples.len() < 2 && n % 100 == 7 {
                    samples.push(src.clone());
                }
                if let Some((min, pretty)) = printed {
                    v["min"] = min.into();
                    v["pretty"] = pretty.into();
                    writeln!(so, "{}", v).unwrap();
                }
            }
            Ok(Err((kind, msg))) => {
                skipped += 1;
                if !judge {
                    bad(kind, msg)
                }
            }
            Err(_) => {
                skipped += 1;
                if !judge {
                    bad("panic".into(), "panicked".into())
                }
            }
        }
    }
    so.flush().unwrap();
    let r = serde_json::json!({"evaluations": n, "distinct_nontrivial": distinct.len(), "inconclusive": if judge { skipped } else { 0 }, "distinct": {}, "samples": samples, "wall_s": 0.0,
        "counters": {"nodes": nodes, "bytes": bytes}, "bad": bads});
    std::fs::write(out, r.to_string()).unwrap();
}
