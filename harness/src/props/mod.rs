//! One monitor per property.
pub mod codegen;
pub mod edit;
pub mod errors;
pub mod estree;
pub mod fidelity;
pub mod isolate;
pub mod layout;
pub mod lexical;
pub mod linear;
pub mod location;
pub mod pieces;
pub mod reject;
pub mod part;
pub mod stack;
mod announce;
pub mod total;
pub mod view;
pub mod visit;

use crate::conv;
use crate::gen;
use crate::print::{self, Layout, Printed, Style};
use crate::rng::Rng;
use crate::runner::*;
use crate::tree::*;

pub fn table() -> Vec<(&'static str, CaseFn)> {
    vec![
        ("C01", total::c01 as CaseFn),
        ("C01stack", stack::c01stack),
        ("C02", total::c02),
        ("C03", fidelity::c03),
        ("C04", reject::c04),
        ("C07", codegen::c07),
        ("C09", codegen::c09),
        ("C10", fidelity::c10),
        ("C05", location::c05),
        ("C06", estree::c06),
        ("C11", visit::c11),
        ("C12", visit::c12),
        ("C13", visit::c13),
        ("C13m", visit::c13m),
        ("C16", isolate::c16),
        ("C16p", isolate::c16p),
        ("C17", isolate::c17),
        ("C18", isolate::c18),
        ("C19", linear::c19),
        ("C20", view::c20),
        ("C14", errors::c14),
        ("C15", lexical::c15),
        ("C21", layout::c21),
        ("C22", edit::c22),
        ("C23", part::c23),
    ]
}

pub fn style(r: &mut Rng) -> Style {
    Style { parens: *r.pick(&[0usize, 0, 3, 15, 40]), variety: r.chance(3, 4) }
}

/// A model program in one of the usual spellings
pub fn make(ctx: &mut Ctx) -> Printed {
    let mut tree = gen::program(&mut ctx.r, ctx.idx, true);
    gen::famous(&mut ctx.r, &mut tree);
    write(ctx, tree)
}

/// The same, preferring programs in which there is a node of this kind
pub fn make_with(ctx: &mut Ctx, k: K) -> Printed {
    let mut tree = gen::program(&mut ctx.r, ctx.idx, true);
    for i in 0..4 {
        let mut n = 0;
        tree.walk(&mut |t| n += t.is(k) as u32);
        if n > 0 {
            break;
        }
        tree = gen::program(&mut ctx.r, 10_000_019 + ctx.idx * 7 + i, true);
    }
    gen::famous(&mut ctx.r, &mut tree);
    write(ctx, tree)
}

fn write(ctx: &mut Ctx, tree: T) -> Printed {
    let lay = match ctx.r.below(10) {
        0 | 1 => Layout::Tight,
        2 => Layout::Spaced,
        3 => Layout::WildNoAsi,
        4 => Layout::Dense,
        _ => Layout::Wild,
    };
    let st = style(&mut ctx.r);
    let p = print::print(&tree, st, lay, &mut ctx.r);
    current(&p.src);
    p
}

/// Count the program as a case: distinct by tree, non-trivial when it has at least five nodes.
pub fn note(ctx: &mut Ctx, p: &Printed) {
    let n = p.tree.count();
    if n >= 5 {
        ctx.stats.nontrivial(p.tree.hash());
    }
    ctx.stats.seen("shapes", p.tree.shape());
    ctx.stats.count("nodes", n as u64);
    ctx.stats.count("bytes", p.src.len() as u64);
    ctx.stats.max("max_depth", p.tree.depth() as u64);
    ctx.stats.max("max_bytes", p.src.len() as u64);
    if ctx.idx % 997 == 500 {
        ctx.stats.sample(&p.src);
    }
}

pub fn errs(e: &[ratel::error::Error]) -> String {
    e.iter().take(3).map(|e| format!("{:?}", e)).collect::<Vec<_>>().join("; ")
}

/// Parse a program that is valid; the model tree or a report.
pub fn parse_valid(src: &str) -> Result<T, Bad> {
    match ratel::parse(src) {
        Ok(m) => Ok(conv::module(&m)),
        Err(e) => Err(bad(format!("rejected: {:?}", e.first().map(|e| e.token)), format!("a valid program was rejected: {}", errs(&e)), src)),
    }
}

/// Short signature of a difference
pub fn diff_kind(d: &str) -> String {
    let k = |s: &str| s.chars().take_while(|c| *c != ' ' && *c != ')').collect::<String>();
    let e = d.split("expected ").nth(1).map(k).unwrap_or_default();
    let g = d.split(" got ").nth(1).map(k).unwrap_or_default();
    format!("{} vs {}", e, g)
}

pub fn same(what: &str, expected: &T, got: &T, src: &str) -> Res {
    match diff(expected, got) {
        None => Ok(()),
        Some(d) => Err(bad(format!("{}: {}", what, diff_kind(&d)), format!("{}: {}", what, d), src)),
    }
}
