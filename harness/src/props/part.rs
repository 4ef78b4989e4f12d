//! C23: a statement or expression, taken on its own, is for every reader what it is in its program.
use super::edit::{cells, cook, nth, Finder, Mode};
use super::visit::{compare, Expect, Recorder};
use super::*;
use ratel_codegen::{codegen, Generator, MinifyingGenerator, PrettyGenerator, ToCode};
use ratel_visitor::Visitable;

/// A generator from outside of the library
#[derive(Default)]
struct Own {
    out: Vec<u8>,
    pretty: bool,
    depth: isize,
    lowest: isize,
    broken: Option<String>,
}

impl Generator for Own {
    type Output = String;
    fn consume(self) -> String {
        String::from_utf8(self.out).unwrap_or_else(|_| "not UTF-8".into())
    }
    fn write_byte(&mut self, b: u8) {
        if b >= 0x80 && self.broken.is_none() {
            self.broken = Some(format!("byte {:#x} on its own", b));
        }
        self.out.push(b);
    }
    fn write_bytes(&mut self, b: &[u8]) {
        if std::str::from_utf8(b).is_err() && self.broken.is_none() {
            self.broken = Some(format!("bytes {:?}", b));
        }
        self.out.extend(b);
    }
    fn write_pretty(&mut self, b: u8) {
        if self.pretty {
            self.out.push(b);
        }
    }
    fn new_line(&mut self) {
        if self.pretty {
            self.out.push(b'\n');
            self.out.extend(std::iter::repeat(b' ').take(4 * self.depth.max(0) as usize));
        }
    }
    fn indent(&mut self) {
        self.depth += 1;
    }
    fn dedent(&mut self) {
        self.depth -= 1;
        self.lowest = self.lowest.min(self.depth);
    }
}

fn with<G: Generator<Output = String>, X: ToCode<G>>(mut gen: G, x: &X) -> String {
    gen.write(x);
    gen.consume()
}

/// Without white space that starts a line
fn flush(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for (i, l) in s.split('\n').enumerate() {
        if i > 0 {
            out.push('\n');
        }
        out += if i > 0 { l.trim_start_matches(' ') } else { l };
    }
    out
}

struct Whole {
    min: String,
    pretty: String,
    json: String,
    debug: String,
}

/// What can be said of statements and expressions alike
fn part<'a, X>(ctx: &mut Ctx, whole: &Whole, x: &'a X, model: &T, stmt: bool, src: &str) -> Res
where
    X: ToCode<MinifyingGenerator> + ToCode<PrettyGenerator> + ToCode<Own> + serde::Serialize + std::fmt::Debug + Visitable<'a>,
{
    let name = if stmt { "a statement" } else { "an expression" };
    let (min, pretty) = (with(MinifyingGenerator::default(), x), with(PrettyGenerator::default(), x));
    for (mode, out, all) in [("minified", min.clone(), &whole.min), ("pretty", flush(&pretty), &whole.pretty)] {
        if !all.contains(&out) {
            return Err(bad(format!("{}, {}, is not part of the whole", name, mode), format!("alone: {}\nwhole: {}", out, all), src));
        }
    }
    for (mode, out) in [("minified", &min), ("pretty", &pretty)] {
        let text = if stmt { out.clone() } else { format!("({});", out) };
        let exp = t(K::Module, "", vec![if stmt { cook(model) } else { t(K::ExprStmt, "", vec![cook(model)]) }]);
        match ratel::parse(&text) {
            Err(e) => return Err(bad(format!("{} alone, {}, does not parse", name, mode), format!("{}\n{}", errs(&e), text), src)),
            Ok(m) => {
                if let Some(d) = diff(&exp, &conv::module(&m)) {
                    return Err(bad(format!("{} alone, {}: {}", name, mode, diff_kind(&d)), format!("{}\n{}", d, text), src));
                }
            }
        }
    }
    for pretty_mode in [false, true] {
        let mut g = Own { pretty: pretty_mode, ..Own::default() };
        g.write(x);
        if let Some(b) = g.broken {
            return Err(bad("a generator of one's own gets parts of characters", format!("{} of {}", b, min), src));
        }
        if g.depth != 0 || g.lowest < 0 {
            return Err(bad("indent and dedent do not balance", format!("{} at the end, {} at the lowest, of {}", g.depth, g.lowest, pretty), src));
        }
        let out = g.consume();
        let theirs = if pretty_mode { &pretty } else { &min };
        if out != *theirs {
            return Err(bad("a generator of one's own gets something else", format!("{}\n{}", out, theirs), src));
        }
    }
    let json = serde_json::to_string(x).map_err(|e| bad("serialisation failed", e.to_string(), src))?;
    if !whole.json.contains(&json) {
        return Err(bad(format!("ESTree of {} is not part of the whole", name), format!("alone: {}\nwhole: {}", json, clip(&whole.json)), src));
    }
    let j = super::estree::parse(&json).map_err(|e| bad("not JSON", format!("{}: {}", e, clip(&json)), src))?;
    if let Some((sig, d)) = super::estree::jdiff(&super::estree::any(&cook(model)), &j, &mut vec![]) {
        return Err(bad(format!("ESTree of {}: {}", name, sig), d, src));
    }
    let debug = format!("{:?}", x);
    if !whole.debug.contains(&debug) {
        return Err(bad(format!("debug text of {} is not part of the whole", name), format!("alone: {}\nwhole: {}", debug, clip(&whole.debug)), src));
    }
    let mut r = Recorder::default();
    x.visit_with(&mut r);
    if let Some(w) = r.wrong {
        return Err(bad("callback of another kind", w, src));
    }
    let mut e = Expect::default();
    if stmt {
        e.stmt(model)
    } else {
        e.expr(model)
    }
    compare(&format!("traversal of {}", name), &e.ev, &r.ev, src)?;
    ctx.stats.count("parts", 1);
    ctx.stats.seen("kinds", model.k as u64);
    Ok(())
}

pub fn c23(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    if super::edit::calls_import(&p.tree) {
        return Ok(());
    }
    let m = match ratel::parse(&p.src) {
        Ok(m) => m,
        Err(_) => {
            ctx.stats.inconclusive += 1;
            return Ok(());
        }
    };
    if diff(&p.tree, &conv::module(&m)).is_some() {
        ctx.stats.inconclusive += 1;
        return Ok(());
    }
    let m = super::isolate::local(&m);
    let (mut raw, places, es, ss) = cells(m);
    let mut f = Finder { n: 0, made: false, out: vec![] };
    f.go(&raw, K::Nil, true, Mode::Free);
    let whole = Whole {
        min: codegen(m, true),
        pretty: flush(&codegen(m, false)),
        json: serde_json::to_string(m).map_err(|e| bad("serialisation failed", e.to_string(), &*p.src))?,
        debug: format!("{:?}", m.body()),
    };
    let all = f.out.len();
    for _ in 0..all.min(6) {
        let x = &f.out[ctx.r.below(all)];
        // what `new` has for its operand is a constructor and its arguments, not a call
        if x.made {
            continue;
        }
        let mut k = x.at;
        let model = nth(&mut raw, &mut k).unwrap().clone();
        // a large part of a large program takes as long as the whole
        if model.count() > 3000 {
            continue;
        }
        if x.stmt {
            if let Some(n) = ss.get(&places[x.at]) {
                part(ctx, &whole, *n, &model, true, &p.src)?;
            }
        } else if let Some(n) = es.get(&places[x.at]) {
            part(ctx, &whole, *n, &model, false, &p.src)?;
        }
    }
    note(ctx, &p);
    Ok(())
}
