//! C01: any text ends in a program or in errors; whatever is accepted can be used.
use super::*;
use crate::hostile;
use ratel_codegen::codegen;
use ratel_transformer::{scope, transform};
use ratel_visitor::{Visitable, Visitor};

pub struct Null;
impl<'ast> Visitor<'ast> for Null {}

/// Everything that can be done with an accepted program
pub fn battery(src: &str) -> (usize, usize) {
    let m = ratel::parse(src).unwrap();
    let mut bytes = 0;
    bytes += codegen(&m, true).len();
    bytes += codegen(&m, false).len();
    bytes += serde_json::to_string(&m).unwrap().len();
    bytes += format!("{:?}", m).len();
    m.visit_with(&mut Null);
    let s = scope::analyze(&m);
    bytes += format!("{:?}", s).len();
    // last: it changes the tree
    let m2 = ratel::parse(src).unwrap();
    transform(&m2);
    let out = codegen(&m2, true);
    codegen(&m2, false);
    bytes += out.len();
    (bytes, out.len())
}

pub fn check_errors(src: &str, errors: &[ratel::error::Error]) -> Res {
    if errors.is_empty() {
        return Err(bad("no errors", "rejected without any error", src));
    }
    Ok(())
}

pub fn c01(ctx: &mut Ctx) -> Res {
    let (src, class) = hostile::text(&mut ctx.r, ctx.idx, ctx.thorough);
    current(&src);
    ctx.stats.count(class, 1);
    ctx.stats.count("bytes", src.len() as u64);
    ctx.stats.max("max_bytes", src.len() as u64);
    let before = crate::alloc::mark();
    let res = ratel::parse(&src);
    let mem = crate::alloc::now();
    // generous: the arena holds the text, and a few hundred bytes per token
    let used = (mem.peak - before.live).max(0) as usize;
    if used > 1_000_000 + src.len() * 4_096 {
        return Err(bad("memory", format!("parsing {} bytes took {} bytes of memory", src.len(), used), &*src));
    }
    match res {
        Err(e) => {
            ctx.stats.count("rejected", 1);
            ctx.stats.count("errors_reported", e.len() as u64);
            check_errors(&src, &e)?;
            // a handful per open construct, all at the end of the text
            ctx.stats.max("max_errors_per_100_bytes", (e.len() * 100 / (src.len() + 8)) as u64);
            if e.len() > 4 * src.len() + 64 {
                return Err(bad("more errors than text", format!("{} errors for {} bytes", e.len(), src.len()), &*src));
            }
            ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
        }
        Ok(m) => {
            drop(m);
            ctx.stats.count("accepted", 1);
            let (bytes, _) = battery(&src);
            ctx.stats.count("accepted_output_bytes", bytes as u64);
            ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
        }
    }
    if ctx.idx % 1999 == 1001 {
        ctx.stats.sample(&src);
    }
    Ok(())
}

/// C02: under a sanitizer, which ends the process where something is wrong
pub fn c02(ctx: &mut Ctx) -> Res {
    let (src, class) = if ctx.r.chance(1, 4) { (make(ctx).src, "program") } else { hostile::text(&mut ctx.r, ctx.idx, ctx.thorough) };
    current(&src);
    ctx.stats.count(class, 1);
    let shallow = src.bytes().filter(|b| b"([{`?".contains(b)).count() < 400 && src.len() < 20_000;
    let (ok, bytes, _) = crate::exercise::exercise(&src, shallow);
    ctx.stats.count(if ok { "accepted" } else { "rejected" }, 1);
    ctx.stats.count("output_bytes", bytes as u64);
    ctx.stats.count("bytes", src.len() as u64);
    if src.len() < 60_000 && ctx.idx % 4 == 0 {
        ctx.stats.count("wasm_bytes", ratel_wasm::transform(&src, true).len() as u64 + if shallow { ratel_wasm::generate_ast(&src, false).len() as u64 } else { 0 });
    }
    ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
    if ctx.idx % 499 == 100 {
        ctx.stats.sample(&src);
    }
    Ok(())
}
