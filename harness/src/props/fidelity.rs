//! C03 parse fidelity, C10 insensitivity to layout.
use super::*;
use crate::print::Printer;

pub fn c03(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let got = parse_valid(&p.src)?;
    note(ctx, &p);
    p.tree.walk(&mut |x| ctx.stats.seen("constructs", x.k as u64 | crate::rng::fnv(x.s.as_bytes()) << 8 & if matches!(x.k, K::Binary | K::Prefix | K::Postfix) { !0 } else { 0 }));
    same("tree", &p.tree, &got, &p.src)
}

/// One token sequence in many layouts: every layout has to give the tree of the model.
pub fn c10(ctx: &mut Ctx) -> Res {
    let mut tree = gen::program(&mut ctx.r, ctx.idx, true);
    gen::famous(&mut ctx.r, &mut tree);
    let st = style(&mut ctx.r);
    let mut tree0 = tree.clone();
    let toks = {
        let mut p = Printer::new(&mut ctx.r, st);
        p.module(&mut tree0);
        p.toks
    };
    let mut seen_src: Vec<String> = vec![];
    for (i, lay) in [Layout::Tight, Layout::Spaced, Layout::WildNoAsi, Layout::Wild, Layout::Dense, Layout::Dense].iter().enumerate() {
        let p = print::layout(toks.clone(), tree0.clone(), *lay, &mut ctx.r);
        current(&p.src);
        ctx.stats.count("layouts", 1);
        ctx.stats.count("dropped_semicolons", p.toks.iter().filter(|t| t.dropped).count() as u64);
        ctx.stats.count("gaps_with_line_end", p.toks.iter().filter(|t| t.nl_before).count() as u64);
        let got = parse_valid(&p.src)?;
        same(&format!("layout {:?}", lay), &tree, &got, &p.src)?;
        if i == 3 {
            note(ctx, &p);
        }
        seen_src.push(p.src);
    }
    Ok(())
}
