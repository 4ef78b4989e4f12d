//! C16 the same text always gives the same result, whatever else goes on; C17 memory is given back;
//! C18 the functions of the wasm interface.
use super::*;
use crate::hostile;
use ratel_codegen::codegen;
use ratel_transformer::{scope, transform};
use ratel_visitor::Visitable;
use std::sync::{Arc, Barrier};

/// Everything observable about a parsed module, in one text
fn fingerprint(m: ratel::Module, out: &mut String) {
    use std::fmt::Write;
    let m = local(&m);
    out.push_str(&conv::module(m).sexp_pos());
    out.push_str(&codegen(m, true));
    out.push_str(&codegen(m, false));
    out.push_str(&serde_json::to_string(m).unwrap());
    let _ = write!(out, "{:?}", m);
    observe_scopes(m, out);
}

/// Visiting takes a reference as long-lived as the module's own parameter; make the two the same
pub fn local<'x>(m: &'x ratel::Module) -> &'x ratel::Module<'x> {
    unsafe { &*(m as *const ratel::Module as *const ratel::Module<'x>) }
}

fn observe_scopes<'a>(m: &'a ratel::Module<'a>, out: &mut String) {
    use std::fmt::Write;
    let mut rec = super::visit::Recorder::default();
    m.visit_with(&mut rec);
    let _ = write!(out, "{:?}", rec.ev.len());
    let _ = write!(out, "{:?}", scope::analyze(m));
    transform(m);
    out.push_str(&codegen(m, true));
}

pub fn observe(src: &str) -> String {
    let mut out = String::new();
    match ratel::parse(src) {
        Ok(m) => fingerprint(m, &mut out),
        Err(e) => {
            errors(&e, src, &mut out);
        }
    }
    out
}

fn errors(e: &[ratel::error::Error], src: &str, out: &mut String) {
    for (i, e) in e.iter().enumerate() {
        if i < 20 {
            out.push_str(&message(e, src));
        } else {
            out.push_str(&format!("{:?} {}..{}", e.token, e.start, e.end));
        }
    }
}

fn message(e: &ratel::error::Error, src: &str) -> String {
    format!("{:?} {} {}..{}\n{}", e.token, e.raw, e.start, e.end, ratel::error::ParseError::UnexpectedToken { source: src.to_string(), start: e.start, end: e.end })
}

fn texts(ctx: &mut Ctx, n: usize) -> Vec<String> {
    (0..n)
        .map(|i| {
            if ctx.r.chance(1, 3) {
                hostile::text(&mut ctx.r, 1, false).0
            } else {
                let idx = if i == 0 { ctx.idx } else { 20_000_033 + ctx.idx * 5 + i as u64 };
                let tree = gen::program(&mut ctx.r, idx, ctx.idx % 64 == 0);
                let st = style(&mut ctx.r);
                print::print(&tree, st, Layout::Wild, &mut ctx.r).src
            }
        })
        .filter(|s| s.len() < 140_000)
        .collect()
}

fn first_difference(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60).min(s.len())..(i + 60).min(s.len())]).into_owned();
    format!("at byte {}: {:?} instead of {:?}", i, cut(b), cut(a))
}

fn differ(what: &str, a: &str, b: &str, src: &str) -> Res {
    if a == b {
        return Ok(());
    }
    Err(bad(what, format!("{}: {}", what, first_difference(a, b)), src))
}

pub fn c16(ctx: &mut Ctx) -> Res {
    let n = ctx.r.range(2, 6);
    let ts = texts(ctx, n);
    if ts.is_empty() {
        return Ok(());
    }
    current(&ts[0]);
    let base: Vec<String> = ts.iter().map(|s| observe(s)).collect();
    // again, in another order
    for i in (0..ts.len()).rev() {
        current(&ts[i]);
        differ("a second run differs", &base[i], &observe(&ts[i]), &ts[i])?;
    }
    ctx.stats.count("repeated", ts.len() as u64);
    // after a long history of one text on this thread: counters must not carry over
    if ctx.idx % 8 == 3 {
        let s = history(&mut ctx.r);
        current(&s);
        let n = if ctx.idx % 1024 == 3 { 140_000 } else { 3000 };
        let keep = ctx.r.chance(1, 4);
        for _ in 0..n {
            let r = ratel::parse(&s);
            if let (true, Ok(m)) = (keep, &r) {
                ctx.stats.count("digest_of_history", codegen(m, true).len() as u64);
            }
        }
        ctx.stats.count("history_parses", n);
        ctx.stats.seen("histories", crate::rng::fnv(s.as_bytes()));
        for (s, b) in ts.iter().zip(&base) {
            current(s);
            differ("a run after many others differs", b, &observe(s), s)?;
        }
        // programs that use everything the parser counts or bounds
        let probes = probes();
        let fresh = {
            let p = probes.clone();
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || p.iter().map(|s| observe(s)).collect::<Vec<_>>()).unwrap().join().unwrap_or_default()
        };
        for (s, b) in probes.iter().zip(&fresh) {
            differ("a run after many others differs", b, &observe(s), s)?;
        }
        ctx.stats.count("probes_after_history", probes.len() as u64);
    }
    // as a part of a larger text: what stands around it does not matter
    for i in 0..ts.len() {
        let s = &ts[i];
        let off = ctx.r.below(17);
        let mut big = String::with_capacity(s.len() + 64);
        for _ in 0..off {
            big.push(*ctx.r.pick(&['x', '\n', '/', '"', '{']));
        }
        big.push_str(s);
        for _ in 0..8 {
            big.push(*ctx.r.pick(&['x', '}', '/', '"', ')', '*', '\u{e9}', '9', '=', ';', '.']));
        }
        differ("the surroundings of the text matter", &base[i], &observe(&big[off..off + s.len()]), s)?;
    }
    ctx.stats.count("embedded", ts.len() as u64);
    // many modules at once: built first, used later, freed in any order, their sources gone
    {
        let mut live: Vec<(usize, Result<ratel::Module, Vec<ratel::error::Error>>)> = vec![];
        for k in 0..ts.len() * 2 {
            let i = k % ts.len();
            let owned = ts[i].clone();
            let res = ratel::parse(&owned);
            let mut owned = owned.into_bytes();
            owned.iter_mut().for_each(|b| *b = b'#');
            drop(owned);
            live.push((i, res));
        }
        ctx.stats.max("max_modules_alive", live.len() as u64);
        while !live.is_empty() {
            let k = ctx.r.below(live.len());
            let (i, res) = live.swap_remove(k);
            if ctx.r.chance(1, 4) {
                continue;
            }
            let mut out = String::new();
            match res {
                Ok(m) => fingerprint(m, &mut out),
                Err(e) => {
                    errors(&e, &ts[i], &mut out);
                }
            }
            differ("a module differs after others were made and dropped", &base[i], &out, &ts[i])?;
            ctx.stats.count("modules_used_late", 1);
        }
    }
    // one after another at the same place, with the same shape
    if ctx.idx % 2 == 1 {
        let first = twins(&mut ctx.r, &ts[0], 6);
        // made in threads of their own, which end: nothing can be left of one for the next
        let mut alone = vec![];
        for s in &first {
            let s = s.clone();
            alone.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || observe(&s)).unwrap().join());
        }
        let mut place = String::with_capacity(150_000);
        for round in 0..2 {
            for (s, b) in first.iter().zip(&alone) {
                let Ok(b) = b else { continue };
                place.clear();
                place.push_str(s);
                current(s);
                // the texts at one place, or the modules at one place, or both
                let o = if round == 0 { observe(&place) } else { observe(s) };
                differ("a run after one of the same shape differs", b, &o, s)?;
                ctx.stats.count("same_shape", 1);
            }
        }
    }
    // several threads at once
    if ctx.idx % 4 == 0 {
        let k = ctx.r.range(2, 4);
        let all = Arc::new(ts.clone());
        let bar = Arc::new(Barrier::new(k));
        let hs: Vec<_> = (0..k)
            .map(|t| {
                let (all, bar) = (all.clone(), bar.clone());
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn(move || {
                        bar.wait();
                        let mut v = vec![];
                        for j in 0..all.len() {
                            let i = (j * (t + 1) + t) % all.len();
                            v.push((i, observe(&all[i])));
                        }
                        v
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(v) => {
                    for (i, out) in v {
                        differ("a run beside other threads differs", &base[i], &out, &ts[i])?;
                        ctx.stats.count("concurrent", 1);
                    }
                }
                Err(_) => return Err(bad("panic beside other threads", "a thread that parsed beside others panicked", ts.join("\n----\n"))),
            }
        }
        ctx.stats.max("max_threads", k as u64);
    }
    for (s, b) in ts.iter().zip(&base) {
        ctx.stats.nontrivial(crate::rng::fnv(s.as_bytes()));
        ctx.stats.count("observed_bytes", b.len() as u64);
    }
    if ctx.idx % 299 == 100 {
        ctx.stats.sample(&ts[0]);
    }
    Ok(())
}

/// A short text: a program, a piece of one, or something hostile
fn history(r: &mut crate::rng::Rng) -> String {
    const OPEN: &[&str] = &[
        "{", "(", "[", "`${", "`", "function f(){", "x=>{", "({", "class C{", "switch(x){", "for(;", "if(", "while(", "do ", "try{", "label:", "a?", "a=", "new ", "(a,", "({a(", "\"", "/*", "/[", "...",
        "for(var i of ", "return ", "break ", "{{", "((", "[[", "function(){{", "class{constructor(){", "x=>(", "`${`${", "case ", "}", ")", "]", "f(", "a[", "!", "import{",
    ];
    match r.below(4) {
        0 | 1 => {
            let n = r.range(1, 4);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(r.pick(OPEN));
                if r.chance(1, 3) {
                    s.push_str(r.pick(&["x", "1", "}", ")", "]", ";", "\n"]));
                }
            }
            s
        }
        2 => {
            let i = r.next() % 4_000;
            let tree = gen::program(r, i, false);
            let st = style(r);
            let mut s = print::print(&tree, st, Layout::Tight, r).src;
            let mut n = (r.below(s.len() + 1)).min(120);
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s
        }
        _ => {
            let mut s = hostile::text(r, 1, false).0;
            let mut n = s.len().min(80);
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s
        }
    }
}

/// Texts of the same length and shape: the digits and the letters of names are others
fn twins(r: &mut crate::rng::Rng, src: &str, n: usize) -> Vec<String> {
    let base = match r.below(3) {
        // each kind of literal and name, many times
        0 => {
            let unit: &[&str] = &["/10/;", "'10';", "`10`;", "10;", "0b10;", "a10;", "a.a10;", "({a10:1});", "a=>{var a10};", "`${a}10`;", "a10`10`;", "import a10 from'10';", "1.10;", "/[10]/g;", "function a10(){}", "a10:;", "class a10{a10(){}}", "a10(a11,a12);", "var{a10,b:a11=12}=a13;", "try{}catch(a10){}", "x=10+11*12;", "\"10\";"];
            let k = r.range(1, 3);
            let parts: Vec<&str> = (0..k).map(|_| *r.pick(unit)).collect();
            parts.concat().repeat(r.range(1, 3))
        }
        _ => src.to_string(),
    };
    (0..n)
        .map(|_| {
            let d = r.range(1, 8) as u8;
            let all = r.chance(1, 2);
            let mut v = base.clone().into_bytes();
            for i in 0..v.len() {
                // no escape, no prefix of a number, no part of a longer one
                let free = v[i].is_ascii_digit() && v[i] != b'0' && (i == 0 || v[i - 1] != b'\\');
                if free && (all || r.chance(1, 2)) {
                    v[i] = b'1' + (v[i] - b'1' + d) % 9;
                }
            }
            String::from_utf8(v).unwrap()
        })
        .collect()
}

fn probes() -> Vec<String> {
    let mut v: Vec<String> = [
        "function f(a, b = 1, ...c) { label: for (let i of a) { if (i) continue label; else break; } return a ? b : c; }",
        "class A extends B { constructor(x) { this.x = x; } static m() {} get p() { return `a${1}b${{}}c`; } f = 1; }",
        "var {a, b: [c, ...d], e = 1} = {a, b() {}, [c]: d, ...e}; x = (y, z) => ({y, z}); w = async => { return 1 }",
        "try { throw new Error(/[/]x/g.test('a\\'b')) } catch (e) { switch (e) { case 1: default: debugger } } finally { do ; while (0) }",
        "import a, {b as c} from 'd'; import * as e from 'f'; for (var k in o) delete o[k]; a **= b ** -1 ** c",
        "a = b\n++c\nfor (;;) {}\nwhile (a) b; x = a ? b : c ? d : e; new a.b.c(d)(e)`f`; void typeof !~-+a--",
        "function* g() {} x = function y() { return new.target }; ({a: 1, 'b': 2, 3: 4, 0b1: 5});",
        "{ ( [ } ) ]", "if (", "a b c", "`${", "function (", "class {", "let x = ;", "x => {", "",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for (o, m, c) in [("{", "", "}"), ("(", "x", ")"), ("[", "", "]"), ("f(", "", ")"), ("x=>{", "", "}"), ("!", "x", ""), ("`${", "x", "}`"), ("a?b:", "c", ""), ("function(){", "", "}"), ("({a:", "1", "})")] {
        for n in [3, 60, 200] {
            let f = if o == "function(){" { "x=function(){" } else { o };
            v.push(format!("{}{}{}", f.repeat(n), m, c.repeat(n)));
        }
    }
    v
}

/// The digest of many results; two processes must agree on it
pub fn c16p(ctx: &mut Ctx) -> Res {
    for s in texts(ctx, 1) {
        current(&s);
        let o = observe(&s);
        ctx.stats.count("digest", crate::rng::fnv(o.as_bytes()) >> 28);
        ctx.stats.nontrivial(crate::rng::fnv(s.as_bytes()));
    }
    Ok(())
}

// ------------------------------------------------------------------ memory

const OPERATIONS: &[&str] = &["minify", "pretty", "json", "pretty json", "debug", "visit", "scopes", "transform"];

pub fn c17(ctx: &mut Ctx) -> Res {
    let s = if ctx.r.chance(1, 2) { hostile::text(&mut ctx.r, ctx.idx, ctx.thorough).0 } else { make(ctx).src };
    current(&s);
    let start = crate::alloc::mark();
    let what = ctx.r.below(8);
    let r = ratel::parse(&s);
    let parsed = crate::alloc::now();
    let mut accepted = false;
    let kept = parsed.live - start.live;
    match r {
        Ok(m) => {
            accepted = true;
            match what {
                0 => drop(codegen(&m, true)),
                1 => drop(codegen(&m, false)),
                2 => drop(serde_json::to_string(&m).unwrap()),
                3 => drop(format!("{:?}", m)),
                4 => {
                    scope::analyze(local(&m));
                }
                5 => {
                    transform(local(&m));
                    drop(codegen(&m, true));
                }
                6 => {
                    // each of the operations gives back what it took, while the module lives
                    let a = crate::alloc::now();
                    drop(codegen(&m, true));
                    drop(codegen(&m, false));
                    drop(serde_json::to_string(&m).unwrap());
                    local(&m).visit_with(&mut super::total::Null);
                    let b = crate::alloc::now();
                    if a.live != b.live {
                        return Err(bad("an operation keeps memory", format!("printing, serialising and visiting left {} bytes behind", b.live - a.live), &*s));
                    }
                }
                _ => {}
            }
        }
        Err(e) => {
            if what < 2 {
                for e in e.iter().take(8) {
                    drop(message(e, &s));
                }
            }
        }
    }
    let end = crate::alloc::now();
    if end.live != start.live {
        return Err(bad(
            if accepted { "memory is not given back" } else { "memory is not given back after errors" },
            format!("{} bytes are still allocated after everything was dropped (operation {})", end.live - start.live, what),
            &*s,
        ));
    }
    let used = parsed.peak - start.live;
    // one page of the arena, then a constant per byte of text
    let bound = 200_000 + 600 * s.len() as isize;
    ctx.stats.max("max_bytes_per_100_bytes_of_large_text", if s.len() > 20_000 { (used * 100 / s.len() as isize) as u64 } else { 0 });
    ctx.stats.max("max_bytes_small_text", if s.len() < 100 { used as u64 } else { 0 });
    if used > bound {
        return Err(bad("memory is not linear", format!("parsing {} bytes took {} bytes", s.len(), used), &*s));
    }
    // nor do the functions for JavaScript keep anything
    if s.len() < 5_000 && ctx.r.chance(1, 8) {
        let a = crate::alloc::now();
        let minify = ctx.r.chance(1, 2);
        let deep = ratel::parse(&s).map_or(false, |m| conv::module(&m).depth() > 40);
        let minify = minify || deep;
        drop(ratel_wasm::transform(&s, minify));
        drop(ratel_wasm::generate_ast(&s, minify));
        drop(ratel_wasm::generate_ast_estree(&s, minify));
        let b = crate::alloc::now();
        if a.live != b.live {
            return Err(bad("a wasm function keeps memory", format!("{} bytes are left", b.live - a.live), &*s));
        }
        ctx.stats.count("wasm_functions", 3);
    }
    // printing and the others take what they write, and little else
    if let (true, true, Ok(m)) = (accepted, ctx.r.chance(1, 3), ratel::parse(&s)) {
        // indented output grows with the square of the depth
        let tree = conv::module(&m);
        let deep = tree.depth() * tree.count() > 1_000_000;
        drop(tree);
        for op in OPERATIONS {
            if deep && op.starts_with("pretty") {
                ctx.stats.count("too_deep_to_indent", 1);
                continue;
            }
            let a = crate::alloc::mark();
            let written = match *op {
                "minify" => codegen(&m, true).len(),
                "pretty" => codegen(&m, false).len(),
                "json" => serde_json::to_string(&m).unwrap().len(),
                "pretty json" => serde_json::to_string_pretty(&m).unwrap().len(),
                "debug" => format!("{:?}", m).len(),
                "visit" => {
                    local(&m).visit_with(&mut super::total::Null);
                    0
                }
                "scopes" => {
                    scope::analyze(local(&m));
                    // it lives in the arena of the module
                    s.len()
                }
                _ => {
                    transform(local(&m));
                    s.len()
                }
            };
            let b = crate::alloc::now();
            let used = b.peak - a.live;
            // a text that grows needs its old place and its new one
            let bound = 120_000 + 4 * written as isize + if matches!(*op, "scopes" | "transform") { 400 * written as isize } else { 0 };
            ctx.stats.max("max_bytes_of_an_operation_on_a_small_text", if s.len() < 100 { used.max(0) as u64 } else { 0 });
            if used > bound {
                return Err(bad(format!("memory of {}", op), format!("{} of {} bytes took {} bytes to write {}", op, s.len(), used, written), &*s));
            }
            ctx.stats.count("operations_measured", 1);
        }
    }
    ctx.stats.count("allocations", end.calls - start.calls);
    ctx.stats.count("bytes_allocated", end.bytes - start.bytes);
    ctx.stats.count(if accepted { "accepted" } else { "rejected" }, 1);
    ctx.stats.count("bytes_kept_while_alive", kept.max(0) as u64);
    ctx.stats.nontrivial(crate::rng::fnv(s.as_bytes()));
    if ctx.idx % 1999 == 1000 {
        ctx.stats.sample(&s);
    }
    Ok(())
}

// ------------------------------------------------------------------ the wasm interface

pub fn c18(ctx: &mut Ctx) -> Res {
    let s = if ctx.r.chance(1, 2) { hostile::text(&mut ctx.r, ctx.idx, ctx.thorough).0 } else { make(ctx).src };
    current(&s);
    if s.len() > 400_000 {
        return Ok(());
    }
    ctx.stats.max("max_text", s.len() as u64);
    let fail = |what: &str, exp: &str, got: &str| Err(bad(what, first_difference(exp, got), &*s));
    match ratel::parse(&s) {
        Ok(m) => {
            ctx.stats.count("accepted", 1);
            // indented output grows with the square of the depth
            let tree = conv::module(&m);
            let deep = tree.depth() * tree.count() > 100_000;
            let very_deep = tree.depth() > 40;
            for minify in [true, false] {
                if deep && !minify {
                    ctx.stats.count("too_deep_to_indent", 1);
                    continue;
                }
                let exp = codegen(&m, minify);
                let got = ratel_wasm::transform(&s, minify);
                if exp != got {
                    return fail("transform", &exp, &got);
                }
                let exp = if minify { serde_json::to_string(&m).unwrap() } else { serde_json::to_string_pretty(&m).unwrap() };
                let got = ratel_wasm::generate_ast_estree(&s, minify);
                if exp != got {
                    return fail("generateASTEstree", &exp, &got);
                }
                // every line of this passes through the formatters of all the nodes it is in
                if very_deep && !minify {
                    continue;
                }
                let exp = if minify { format!("{:?}", m.body()) } else { format!("{:#?}", m.body()) };
                let got = ratel_wasm::generate_ast(&s, minify);
                if exp != got {
                    return fail("generateAST", &exp, &got);
                }
                ctx.stats.count("output_bytes", exp.len() as u64);
            }
        }
        Err(e) => {
            ctx.stats.count("rejected", 1);
            if e.len() * s.len() > 4_000_000 {
                return Ok(());
            }
            let mut exp = String::from("Error: ");
            for (i, x) in e.iter().enumerate() {
                if i > 0 {
                    exp.push('\n');
                }
                exp.push_str(&ratel::error::ParseError::UnexpectedToken { source: s.clone(), start: x.start, end: x.end }.to_string());
            }
            for minify in [true, false] {
                for (what, got) in [("transform", ratel_wasm::transform(&s, minify)), ("generateAST", ratel_wasm::generate_ast(&s, minify)), ("generateASTEstree", ratel_wasm::generate_ast_estree(&s, minify))] {
                    if exp != got {
                        return fail(&format!("errors of {}", what), &exp, &got);
                    }
                }
            }
            ctx.stats.count("errors", e.len() as u64);
        }
    }
    ctx.stats.nontrivial(crate::rng::fnv(s.as_bytes()));
    if ctx.idx % 999 == 500 {
        ctx.stats.sample(&s);
    }
    Ok(())
}
