//! C05: the source span of every node.
use super::*;
use crate::print::{Tok, TK};

struct Spans<'a> {
    src: &'a str,
    toks: Vec<&'a Tok>,
    checked: u64,
    exact: u64,
}

/// Kinds whose span may take in the token that follows (ratel's convention, which its tests rely on)
fn reaches_on(k: K, parent: K) -> bool {
    matches!(k, K::Arrow | K::CMember | K::Member | K::Prefix | K::Seq | K::Decl | K::PSpread | K::ImportSpec | K::ImportDefault | K::ImportNs) || (k == K::Name && parent == K::Member)
}

/// Kinds that start where their first operand's node starts (which differs for calls)
fn starts_with_child(k: K) -> bool {
    matches!(k, K::Binary | K::CMember | K::Cond | K::ExprStmt | K::Member | K::Postfix | K::Seq | K::Tagged)
}

impl<'a> Spans<'a> {
    /// index of the first token that starts at or after `at`
    fn tok_at(&self, at: u32) -> usize {
        self.toks.partition_point(|t| t.start < at)
    }

    /// Where the tokens after `end` end, as the scanner reads them, up to the first that is no grouping
    /// parenthesis: `.name` is one token there, the `}` of a
    /// template another, and the first sign of a regular expression an operator.
    fn next_ends(&self, end: u32) -> Vec<u32> {
        let mut i = self.tok_at(end);
        let mut v = vec![];
        loop {
            let Some(t) = self.toks.get(i) else {
                v.push(self.src.len() as u32);
                return v;
            };
            v.push(match (t.kind, self.toks.get(i + 1)) {
                (TK::TplMiddle | TK::TplTail, _) => t.start + 1,
                (TK::Punct, Some(n)) if t.s == "." => n.end,
                (TK::Regex, _) => t.start + if t.s.starts_with("/=") { 2 } else { 1 },
                _ => t.end,
            });
            if !t.group {
                return v;
            }
            i += 1;
        }
    }

    fn start_ok(&self, e: &T, g: &T, parent: K) -> bool {
        if g.start == e.start {
            return true;
        }
        match e.k {
            // the parenthesis of the arguments: the last bracket opened at depth zero
            K::Call => {
                let hi = self.toks.partition_point(|t| t.end <= e.end);
                let mut depth = 0;
                for t in self.toks[..hi].iter().rev() {
                    match (t.kind, t.s.as_str()) {
                        (TK::Punct, ")" | "]" | "}") | (TK::TplTail, _) => depth += 1,
                        (TK::Punct, "(" | "[" | "{") | (TK::TplHead, _) => depth -= 1,
                        _ => {}
                    }
                    if depth == 0 {
                        return t.start == g.start;
                    }
                }
                false
            }
            // `(a) => b` starts at the first parameter, or at what ends the list
            K::Arrow => {
                let lo = self.tok_at(e.start);
                self.toks.get(lo + 1).map_or(false, |t| t.start == g.start)
            }
            // `import "x"`
            K::Import => e.c.is_empty() && self.toks.get(self.tok_at(e.start) + 1).map_or(false, |t| t.start == g.start),
            // `new . target`: starts with the dot
            K::Name if parent == K::Meta => e.start > g.start && self.toks.get(self.tok_at(e.start) - 1).map_or(false, |t| t.start == g.start),
            K::Name if parent == K::Member => self.toks.get(self.tok_at(e.end)).map_or(g.start as usize == self.src.len(), |t| t.start == g.start),
            k => starts_with_child(k) && g.c[0].start == g.start,
        }
    }

    fn end_ok(&self, e: &T, g: &T, parent: K) -> bool {
        if g.end == e.end {
            return true;
        }
        if reaches_on(e.k, parent) {
            return self.next_ends(e.end).contains(&g.end);
        }
        // no further than the part that ends it
        e.c.iter().zip(&g.c).any(|(a, b)| a.end == e.end && b.end == g.end)
    }

    fn walk(&mut self, e: &T, g: &T, parent: K) -> Result<(), (String, String)> {
        // lists and holes have no span of their own
        if e.end > 0 && !matches!(e.k, K::Params | K::Void | K::PatVoid | K::Module) {
            self.checked += 1;
            if (g.start, g.end) == (e.start, e.end) {
                self.exact += 1;
            } else {
                let of = |a: u32, b: u32| self.src.get(a as usize..b as usize).unwrap_or("(no text)").to_string();
                let what = || format!("{:?} in {:?}: expected {}..{} {:?}, got {}..{} {:?}", e.k, parent, e.start, e.end, of(e.start, e.end), g.start, g.end, of(g.start, g.end));
                if !self.start_ok(e, g, parent) {
                    return Err((format!("start of {:?}", e.k), what()));
                }
                if !self.end_ok(e, g, parent) {
                    return Err((format!("end of {:?}", e.k), what()));
                }
            }
        }
        for (a, b) in e.c.iter().zip(&g.c) {
            self.walk(a, b, e.k)?;
        }
        Ok(())
    }
}

pub fn c05(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let got = parse_valid(&p.src)?;
    same("tree", &p.tree, &got, &p.src)?;
    note(ctx, &p);
    let mut s = Spans { src: &p.src, toks: p.toks.iter().filter(|t| !t.dropped).collect(), checked: 0, exact: 0 };
    let r = s.walk(&p.tree, &got, K::Nil);
    ctx.stats.count("spans", s.checked);
    ctx.stats.count("spans_exact", s.exact);
    r.map_err(|(k, m)| bad(k, m, &*p.src))
}
