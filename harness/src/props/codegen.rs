//! C07 round trip, C09 fixpoint and agreement of the two modes.
use super::*;
use ratel_codegen::codegen;

pub fn c07(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let m = ratel::parse(&p.src).map_err(|e| bad("rejected", errs(&e), &*p.src))?;
    let before = conv::module(&m);
    for minify in [true, false] {
        let mode = if minify { "minified" } else { "pretty" };
        let out = codegen(&m, minify);
        ctx.stats.count("printed_bytes", out.len() as u64);
        match ratel::parse(&out) {
            Err(e) => {
                return Err(bad(
                    format!("{} output does not parse: {:?}", mode, e.first().map(|e| e.token)),
                    format!("{} output does not parse: {}\noutput: {}", mode, errs(&e), out),
                    &*p.src,
                ))
            }
            Ok(m2) => {
                let got = conv::module(&m2);
                if let Some(d) = diff(&before, &got) {
                    return Err(bad(format!("{} output: {}", mode, diff_kind(&d)), format!("{} output denotes another program: {}\noutput: {}", mode, d, out), &*p.src));
                }
            }
        }
    }
    // printing must leave the tree alone
    same("tree changed by printing", &before, &conv::module(&m), &p.src)?;
    note(ctx, &p);
    // independent of the round trip: the tree printed is the program that was written
    same("tree", &p.tree, &before, &p.src)
}

pub fn c09(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let m = ratel::parse(&p.src).map_err(|e| bad("rejected", errs(&e), &*p.src))?;
    let min = codegen(&m, true);
    let pre = codegen(&m, false);
    let reparse = |out: &str, what: &str| {
        ratel::parse(out).map_err(|e| bad(format!("{} output does not parse", what), format!("{}\noutput: {}", errs(&e), out), &*p.src)).map(|m| (codegen(&m, true), codegen(&m, false)))
    };
    let (min_min, min_pre) = reparse(&min, "minified")?;
    let (pre_min, pre_pre) = reparse(&pre, "pretty")?;
    for (name, a, b) in [
        ("minify(minify(p)) != minify(p)", &min_min, &min),
        ("pretty(pretty(p)) != pretty(p)", &pre_pre, &pre),
        ("minify(pretty(p)) != minify(p)", &pre_min, &min),
        ("pretty(minify(p)) != pretty(p)", &min_pre, &pre),
    ] {
        ctx.stats.count("comparisons", 1);
        if a != b {
            return Err(bad(name, format!("{}\n{}\n{}", name, b, a), &*p.src));
        }
    }
    note(ctx, &p);
    Ok(())
}
