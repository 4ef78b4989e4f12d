//! C19: the work grows with the size of the text, not faster.
use super::*;
use crate::hostile;
use ratel_codegen::codegen;
use ratel_transformer::{scope, transform};
use ratel_visitor::Visitable;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread, in seconds
pub fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

const OPS: &[&str] = &["parse", "minify", "pretty", "json", "visit", "scopes", "transform", "drop"];

fn visit<'a>(m: &'a ratel::Module<'a>, t: &mut [f64; 8], mut at: f64) -> f64 {
    let mut step = |i: usize, t: &mut [f64; 8]| {
        let n = cpu();
        t[i] = t[i].min(n - at);
        at = n;
    };
    m.visit_with(&mut super::total::Null);
    step(4, t);
    scope::analyze(m);
    step(5, t);
    transform(m);
    step(6, t);
    at
}

/// The least time each operation took
fn measure(s: &str, reps: usize) -> [f64; 8] {
    let mut t = [f64::MAX; 8];
    for _ in 0..reps {
        let a = cpu();
        let r = ratel::parse(s);
        let b = cpu();
        t[0] = t[0].min(b - a);
        match r {
            Err(e) => {
                let b = cpu();
                drop(e);
                t[7] = t[7].min(cpu() - b);
            }
            Ok(m) => {
                let b = cpu();
                drop(codegen(&m, true));
                let c = cpu();
                t[1] = t[1].min(c - b);
                drop(codegen(&m, false));
                let d = cpu();
                t[2] = t[2].min(d - c);
                drop(serde_json::to_string(&m).unwrap());
                let e = cpu();
                t[3] = t[3].min(e - d);
                {
                    visit(super::isolate::local(&m), &mut t, e);
                }
                let f = cpu();
                drop(m);
                t[7] = t[7].min(cpu() - f);
            }
        }
    }
    t
}

/// (name, before, repeated, after)
pub const FAMILIES: &[(&str, &str, &str, &str)] = &[
    ("white space", "", " ", "a"),
    ("lines", "", "\n", "a"),
    ("carriage returns", "", "\r", "a"),
    ("line comments", "", "//c\n", "a"),
    ("one line comment", "//", "c", ""),
    ("one comment", "/*", "*", "/"),
    ("one comment of lines", "/*", "x\n", "*/a"),
    ("comments", "", "/**/", "a"),
    ("open comment", "/*", "*c/ ", ""),
    ("one identifier", "", "a", ""),
    ("one non-ASCII identifier", "a", "\u{e9}", ""),
    ("one number", "1", "0", ""),
    ("one fraction", ".", "3", ""),
    ("one binary", "0x", "f", ""),
    ("one string", "'", "s", "'"),
    ("one string of escapes", "'", "\\'", "'"),
    ("one open string", "'", "\\\"", ""),
    ("one template", "`", "t", "`"),
    ("one template of dollars", "`", "$", "`"),
    ("one open template", "`", "\\`", ""),
    ("template parts", "`", "x${a}", "`"),
    ("one regular expression", "/", "r", "/"),
    ("one class of a regular expression", "/[", "/", "]/"),
    ("one open regular expression", "/", "[", ""),
    ("empty statements", "", ";", ""),
    ("expression statements", "", "a;", ""),
    ("statements without semicolon", "", "a\n", ""),
    ("calls of new", "", "new A(b);", ""),
    ("arguments", "f(", "a,", "a)"),
    ("array", "[", "a,", "a]"),
    ("holes", "[", ",", "a]"),
    ("object", "({", "a:b,", "c})"),
    ("shorthands", "({", "a,", "c})"),
    ("methods", "({", "a(){},", "c})"),
    ("class members", "class A{", "b(){}", "}"),
    ("static members", "class A{", "static b(){}\n", "}"),
    ("fields", "class A{", "b=1;", "}"),
    ("parameters", "function f(", "a,", "b){}"),
    ("parameters with defaults", "function f(", "a=1,", "b){}"),
    ("arrow parameters", "(", "a,", "b)=>c"),
    ("sequence", "(", "a,", "b)"),
    ("declarators", "var ", "a,", "b"),
    ("different names", "", "", ""),
    ("declarations", "", "let a=1;", ""),
    ("cases", "switch(a){", "case b:c;", "}"),
    ("catch", "", "try{}catch(e){}", ""),
    ("imports", "import {", "a as b,", "c} from 'm'"),
    ("import statements", "", "import a from 'm';", ""),
    ("functions", "", "function f(a){return a}", ""),
    ("blocks", "", "{}", ""),
    ("arrows", "", "(a)=>b;", ""),
    ("arrows with defaults", "", "(a=1)=>b;", ""),
    ("objects that start expressions", "", "({}).a;", ""),
    ("labels", "", "a:b;", ""),
    ("object pattern", "var {", "a,", "b}=c"),
    ("array pattern", "var [", "a,", "b]=c"),
    ("ifs", "", "if(a)b;else c;", ""),
    ("unexpected tokens", "", "@", ""),
    ("unexpected operators", "", "*;", ""),
    ("unexpected brackets", "", ")", ""),
    ("missing operands", "", "a+;", ""),
    ("statements with an error", "", "var 1;", ""),
    // deep to the left: the printers recurse, so these are kept shorter
    ("<members", "a", ".b", ""),
    ("<calls", "a", "()", ""),
    ("<indices", "a", "[0]", ""),
    ("<sums", "a", "+a", ""),
    ("<tagged templates", "a", "``", ""),
    ("<conditionals", "", "a?b:", "c"),
    ("<assignments", "", "a=", "b"),
    ("<else ifs", "", "if(a);else ", ";"),
    ("<parentheses", "", "(", ""),
    ("<brackets", "", "[", ""),
    ("<braces", "", "{", ""),
    ("<prefix", "", "!", "a"),
    ("<open functions", "", "function(){", ""),
    ("<open templates", "", "`${", ""),
    ("<open arrows", "", "a=>", ""),
    ("<open parentheses of arrows", "", "(a,", ""),
    ("<open objects", "(", "{a:", ""),
    ("<labels of labels", "", "a:", "b"),
];

/// More of them, of which only the time is measured
const MORE: &[(&str, &str, &str, &str)] = &[
    ("members constructor(){}", "class A{", "constructor(){}", "}"),
    ("members get b(){}", "class A{", "get b(){}", "}"),
    ("members set b(c){}", "class A{", "set b(c){}", "}"),
    ("members [b](){}", "class A{", "[b](){}", "}"),
    ("members 1(){}", "class A{", "1(){}", "}"),
    ("members static constructor(){}", "class A{", "static constructor(){}", "}"),
    ("members static b=1;", "class A{", "static b=1;", "}"),
    ("members [b]=1;", "class A{", "[b]=1;", "}"),
    ("members get(){}", "class A{", "get(){}", "}"),
    ("properties __proto__:a,", "({", "__proto__:a,", "})"),
    ("properties \"a\":b,", "({", "\"a\":b,", "})"),
    ("properties [a]:b,", "({", "[a]:b,", "})"),
    ("properties 1:b,", "({", "1:b,", "})"),
    ("properties ...a,", "({", "...a,", "})"),
    ("properties 0x1:b,", "({", "0x1:b,", "})"),
    ("properties [a](){},", "({", "[a](){},", "})"),
    ("properties get:a,", "({", "get:a,", "})"),
    ("properties a:a,", "({", "a:a,", "})"),
    ("parts of switch default:", "switch(a){", "default:", "}"),
    ("parts of switch default:a;break;", "switch(a){", "default:a;break;", "}"),
    ("parts of switch case 1:{}", "switch(a){", "case 1:{}", "}"),
    ("parts of switch case \"a\":case b:", "switch(a){", "case \"a\":case b:", "}"),
    ("statements do;while(a)", "", "do;while(a)\n", ""),
    ("statements while(a);", "", "while(a);", ""),
    ("statements for(;;);", "", "for(;;);", ""),
    ("statements for(var a in b);", "", "for(var a in b);", ""),
    ("statements for(let a of b);", "", "for(let a of b);", ""),
    ("statements switch(a){}", "", "switch(a){}", ""),
    ("statements try{}finally{}", "", "try{}finally{}", ""),
    ("statements throw a;", "", "throw a;", ""),
    ("statements debugger;", "", "debugger;", ""),
    ("statements class A{}", "", "class A{}", ""),
    ("statements class A extends B{}", "", "class A extends B{}", ""),
    ("statements function*f(){}", "", "function*f(){}", ""),
    ("statements var a;", "", "var a;", ""),
    ("statements const a=1;", "", "const a=1;", ""),
    ("statements var{a}=b;", "", "var{a}=b;", ""),
    ("statements var[a]=b;", "", "var[a]=b;", ""),
    ("statements a=>{};", "", "a=>{};", ""),
    ("statements `a${b}`;", "", "`a${b}`;", ""),
    ("statements a`b`;", "", "a`b`;", ""),
    ("statements /a/;", "", "/a/;", ""),
    ("statements \"a\";", "", "\"a\";", ""),
    ("statements 0b1;", "", "0b1;", ""),
    ("statements this;", "", "this;", ""),
    ("statements [];", "", "[];", ""),
    ("statements ({});", "", "({});", ""),
    ("statements (class{});", "", "(class{});", ""),
    ("statements (function(){});", "", "(function(){});", ""),
    ("statements new a;", "", "new a;", ""),
    ("statements a.b;", "", "a.b;", ""),
    ("statements a[b];", "", "a[b];", ""),
    ("statements a();", "", "a();", ""),
    ("statements !a;", "", "!a;", ""),
    ("statements a++;", "", "a++;", ""),
    ("statements a?b:c;", "", "a?b:c;", ""),
    ("statements a=b;", "", "a=b;", ""),
    ("statements a,b;", "", "a,b;", ""),
    ("statements import.meta;", "", "import.meta;", ""),
    ("statements {a}", "", "{a}", ""),
    ("statements {let a}", "", "{let a}", ""),
    ("statements {{}}", "", "{{}}", ""),
    ("statements if(a){}", "", "if(a){}", ""),
    ("statements a:for(;;)break a;", "", "a:for(;;)break a;", ""),
    ("statements import*as a from\"m\";", "", "import*as a from\"m\";", ""),
    ("statements import\"m\";", "", "import\"m\";", ""),
    ("statements \"use strict\";", "", "\"use strict\";", ""),
    ("statements undefined;", "", "undefined;", ""),
    ("statements a ++b", "", "a\n++b\n", ""),
    ("statements return;", "", "return;", ""),
    ("parameters a=b,", "function f(", "a=b,", "b){}"),
    ("declarators a=b,", "var ", "a=b,", "b"),
    ("parameters {a},", "function f(", "{a},", "b){}"),
    ("declarators {a},", "var ", "{a}=c,", "b"),
    ("parameters [a],", "function f(", "[a],", "b){}"),
    ("declarators [a],", "var ", "[a]=c,", "b"),
    ("parameters {a:b},", "function f(", "{a:b},", "b){}"),
    ("declarators {a:b},", "var ", "{a:b}=c,", "b"),
    ("parameters [a=b],", "function f(", "[a=b],", "b){}"),
    ("declarators [a=b],", "var ", "[a=b]=c,", "b"),
    ("arguments \"a\",", "f(", "\"a\",", "b)"),
    ("elements \"a\",", "[", "\"a\",", "b]"),
    ("arguments 1,", "f(", "1,", "b)"),
    ("elements 1,", "[", "1,", "b]"),
    ("arguments ...a,", "f(", "...a,", "b)"),
    ("elements ...a,", "[", "...a,", "b]"),
    ("arguments a=>b,", "f(", "a=>b,", "b)"),
    ("elements a=>b,", "[", "a=>b,", "b]"),
    ("arguments {},", "f(", "{},", "b)"),
    ("elements {},", "[", "{},", "b]"),
    ("arguments [],", "f(", "[],", "b)"),
    ("elements [],", "[", "[],", "b]"),
    ("arguments `a`,", "f(", "`a`,", "b)"),
    ("elements `a`,", "[", "`a`,", "b]"),
    ("arguments /a/,", "f(", "/a/,", "b)"),
    ("elements /a/,", "[", "/a/,", "b]"),
    ("arguments function(){},", "f(", "function(){},", "b)"),
    ("elements function(){},", "[", "function(){},", "b]"),
    ("arguments a=b,", "f(", "a=b,", "b)"),
    ("elements a=b,", "[", "a=b,", "b]"),
    ("arguments a?b:c,", "f(", "a?b:c,", "b)"),
    ("elements a?b:c,", "[", "a?b:c,", "b]"),
    ("arguments (a,b),", "f(", "(a,b),", "b)"),
    ("elements (a,b),", "[", "(a,b),", "b]"),
    ("parts of a pattern {a},", "var[", "{a},", "b]=c"),
    ("parts of a pattern [a],", "var[", "[a],", "b]=c"),
    ("parts of a pattern a=b,", "var[", "a=b,", "b]=c"),
    ("parts of a pattern ...a,", "var[", "...a,", "b]=c"),
    ("parts of an object pattern a:b,", "var{", "a:b,", "b}=c"),
    ("parts of an object pattern a:{b},", "var{", "a:{b},", "b}=c"),
    ("parts of an object pattern a:b=c,", "var{", "a:b=c,", "b}=c"),
    ("parts of an object pattern a:[b],", "var{", "a:[b],", "b}=c"),
    ("<operators +", "a", " + a", ""),
    ("<operators -", "a", " - a", ""),
    ("<operators *", "a", " * a", ""),
    ("<operators /", "a", " / a", ""),
    ("<operators &&", "a", " && a", ""),
    ("<operators ||", "a", " || a", ""),
    ("<operators ==", "a", " == a", ""),
    ("<operators <", "a", " < a", ""),
    ("<operators in", "a", " in a", ""),
    ("<operators instanceof", "a", " instanceof a", ""),
    ("<operators >>>", "a", " >>> a", ""),
    ("<operators **", "a", " ** a", ""),
    ("<operators ,", "a", " , a", ""),
    ("<operators |", "a", " | a", ""),
    ("<prefixes - ", "", "- ", "a"),
    ("<prefixes ~", "", "~", "a"),
    ("<prefixes typeof ", "", "typeof ", "a"),
    ("<prefixes void ", "", "void ", "a"),
    ("<prefixes delete ", "", "delete ", "a"),
    ("<prefixes new ", "", "new ", "a"),
    ("<prefixes ++", "", "++", "a"),
    ("<prefixes -", "", "-", "a"),
    ("<nested a**", "", "a**", "a"),
    ("<nested a+=", "", "a+=", "a"),
    ("<nested ...", "", "...", "a"),
    ("<nested (a)=>", "", "(a)=>", "a"),
    ("<nested async ", "", "async ", "a"),
    ("<nested if(a)", "", "if(a)", "a"),
    ("<nested for(;;)", "", "for(;;)", "a"),
    ("<nested while(a)", "", "while(a)", "a"),
    ("<nested do ", "", "do ", "a"),
    ("<nested a:", "", "a:", "a"),
    ("<nested x=>{", "", "x=>{", "a"),
    ("<nested class A extends ", "", "class A extends ", "a"),
    ("<nested f(", "", "f(", "a"),
    ("<nested [[", "", "[[", "a"),
    ("<nested ({a(){", "", "({a(){", "a"),
    ("<nested switch(a){case b:", "", "switch(a){case b:", "a"),
    ("<nested try{", "", "try{", "a"),
    ("<nested a?", "", "a?", "a"),
    ("<nested a[", "", "a[", "a"),
    ("<nested `${`", "", "`${`", "a"),
    ("<nested new a(", "", "new a(", "a"),
    ("repeated \"", "", "\"", ""),
    ("repeated '", "", "'", ""),
    ("repeated `", "", "`", ""),
    ("repeated /", "", "/", ""),
    ("repeated /*", "", "/*", ""),
    ("repeated 0x", "", "0x", ""),
    ("repeated 1e", "", "1e", ""),
    ("repeated .", "", ".", ""),
    ("repeated ..", "", "..", ""),
    ("repeated \\", "", "\\", ""),
    ("repeated #", "", "#", ""),
    ("repeated ${", "", "${", ""),
    ("repeated }", "", "}", ""),
    ("repeated ])", "", "])", ""),
    ("repeated =>", "", "=>", ""),
    ("repeated case ", "", "case ", ""),
    ("repeated else ", "", "else ", ""),
    ("repeated =", "", "=", ""),
    ("repeated var", "", "var", ""),
    ("repeated const ", "", "const ", ""),
    ("repeated class ", "", "class ", ""),
    ("repeated function", "", "function", ""),
    ("repeated import ", "", "import ", ""),
    ("repeated import{", "", "import{", ""),
    ("repeated new.", "", "new.", ""),
    ("repeated ? :", "", "? :", ""),
    ("repeated @@", "", "@@", ""),
    ("repeated é", "", "é", ""),
];

/// The text of a family, with its part repeated so many times
pub fn repeat(f: &(&str, &str, &str, &str), count: usize) -> String {
    let part = f.2.len();
    if part == 0 {
        return build(f, count * 10);
    }
    build(f, f.1.len() + part * count)
}

/// The text with every name, number and string made the i-th of its kind
pub fn numbered(s: &str, i: usize) -> String {
    const KEEP: &str = " as async await break case catch class const constructor continue debugger default delete do else export extends false finally for from function get if import in instanceof let new null of return set static super switch target this throw true try typeof undefined var void while with yield ";
    let b = s.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c >= 0x80;
    let mut o = String::new();
    let mut k = 0;
    while k < b.len() {
        let from = k;
        if !word(b[k]) || (b[k] == b'$' && b.get(k + 1) == Some(&b'{')) {
            k += 1;
            o.push_str(&s[from..k]);
            continue;
        }
        while k < b.len() && word(b[k]) {
            k += 1;
        }
        let w = &s[from..k];
        o.push_str(w);
        // the flags of a regular expression are no name
        let flags = from > 0 && b[from - 1] == b'/' && b[..from - 1].contains(&b'/');
        if !KEEP.contains(&format!(" {} ", w)) && !(b[from] == b'0' && w.len() > 1) && !flags {
            o.push_str(&i.to_string());
        }
    }
    o
}

fn vary(f: &(&str, &str, &str, &str), bytes: usize) -> String {
    let mut s = String::from(f.1);
    let mut i = 0;
    while s.len() < bytes {
        s.push_str(&numbered(f.2, i));
        i += 1;
    }
    s.push_str(f.3);
    s
}

fn build(f: &(&str, &str, &str, &str), bytes: usize) -> String {
    let mut s = String::from(f.1);
    if f.0 == "different names" {
        let mut i = 0;
        while s.len() < bytes {
            s.push_str(&format!("var v{};w{};", i, i * 7919 % 10007));
            i += 1;
        }
        return s;
    }
    while s.len() < bytes {
        s.push_str(f.2);
    }
    s.push_str(f.3);
    s
}

pub fn c19(ctx: &mut Ctx) -> Res {
    let i = ctx.idx as usize;
    let unit;
    let mut varied = false;
    let (name, fam, big) = if i < MORE.len() {
        let f = MORE[i];
        (f.0.to_string(), f, if f.0.starts_with('<') { 64_000 } else { 128_000 })
    } else if i < MORE.len() + FAMILIES.len() * 2 {
        let i = i - MORE.len();
        let f = FAMILIES[i % FAMILIES.len()];
        let deep = f.0.starts_with('<');
        (f.0.to_string(), f, match (deep, i < FAMILIES.len()) {
            (true, _) => 64_000,
            (false, true) => 256_000,
            (false, false) => 1_024_000,
        })
    } else if i < MORE.len() + FAMILIES.len() * 3 + MORE.len() {
        varied = true;
        let i = i - MORE.len() - FAMILIES.len() * 2;
        let f = if i < FAMILIES.len() { FAMILIES[i] } else { MORE[i - FAMILIES.len()] };
        if numbered(f.2, 1) == f.2 {
            return Ok(());
        }
        (format!("{}, each with names of its own", f.0), f, if f.0.starts_with('<') { 64_000 } else { 512_000 })
    } else if ctx.r.chance(1, 2) {
        varied = ctx.r.chance(1, 2);
        // a valid program, over and over
        let tree = gen::program(&mut ctx.r, 30_000_001 + ctx.idx, false);
        let st = style(&mut ctx.r);
        let p = print::print(&tree, st, Layout::WildNoAsi, &mut ctx.r).src;
        if p.len() > 4_000 {
            return Ok(());
        }
        unit = format!("{{{}\n}}\n", p);
        ("repeated program".to_string(), ("", "", unit.as_str(), ""), 256_000)
    } else {
        let n = ctx.r.range(1, 4);
        let mut u = String::new();
        for _ in 0..n {
            u.push_str(&hostile::token(&mut ctx.r));
            if ctx.r.chance(1, 3) {
                u.push(' ');
            }
        }
        unit = u;
        ("repeated tokens".to_string(), ("", "", unit.as_str(), ""), 64_000)
    };
    if fam.2.is_empty() && fam.0 != "different names" {
        return Ok(());
    }
    let build = if varied { vary } else { build };
    let small = build(&fam, big / 32);
    let large = build(&fam, big);
    current(&small);
    let factor = large.len() as f64 / small.len() as f64;
    let ratio = |reps: usize| {
        let a = measure(&small, reps * 16);
        let b = measure(&large, reps);
        (a, b)
    };
    let slow = |a: &[f64; 8], b: &[f64; 8]| (0..8).find(|&k| {
        // giving pages back is work of the system, and depends on what else it does
        let floor = if OPS[k] == "drop" { 0.04 } else { 0.003 };
        // what the small text leaves in the cache of a processor the large one may have to fetch
        let least = (small.len() as f64 * 3e-9).max(2e-5);
        b[k] < 1e9 && a[k] < 1e9 && b[k] > floor && b[k] > a[k].max(least) * factor * 8.0
    });
    // what takes very long already need not be measured on the whole
    let half = build(&fam, big / 4);
    let little = build(&fam, big / 128);
    let step = half.len() as f64 / little.len() as f64;
    let slower = || {
        let (a, b) = (measure(&little, 16), measure(&half, 1));
        (0..8).find(|&k| b[k] < 1e9 && a[k] < 1e9 && b[k] > 0.08 && b[k] > a[k].max(1e-4) * step * 5.0).map(|k| (k, a, b))
    };
    if let Some((k, a, b)) = slower().and_then(|_| slower()).and_then(|_| slower()) {
        return Err(bad(
            format!("{} is not linear", OPS[k]),
            format!("{}: {} took {:.2} ms for {} bytes and {:.2} ms for {} bytes: {:.1} times as long for {:.1} times the text", name, OPS[k], a[k] * 1e3, little.len(), b[k] * 1e3, half.len(), b[k] / a[k], step),
            format!("{}{} repeated {}", fam.1, fam.2, fam.3),
        ));
    }
    let (a, b) = ratio(1);
    for k in 0..8 {
        if b[k] < 1e9 && a[k] < 1e9 {
            ctx.stats.count("measurements", 1);
            if b[k] > 0.003 {
                ctx.stats.max("max_first_growth_percent_of_linear", (100.0 * b[k] / (a[k].max(2e-6) * factor)) as u64);
            }
        }
    }
    if slow(&a, &b).is_some() {
        // is it the text, or was the machine busy?
        let mut hits = 0;
        let mut last = (a, b);
        for _ in 0..3 {
            let (a, b) = ratio(if last.1.iter().any(|t| *t < 1e9 && *t > 0.5) { 1 } else { 5 });
            last = (a, b);
            if slow(&a, &b).is_some() {
                hits += 1;
            } else {
                break;
            }
        }
        if hits == 3 {
            let (a, b) = last;
            let k = slow(&a, &b).unwrap();
            return Err(bad(
                format!("{} is not linear", OPS[k]),
                format!("{}: {} took {:.2} ms for {} bytes and {:.2} ms for {} bytes: {:.1} times as long for {:.1} times the text", name, OPS[k], a[k] * 1e3, small.len(), b[k] * 1e3, large.len(), b[k] / a[k], factor),
                format!("{}{} repeated {}", fam.1, fam.2, fam.3),
            ));
        }
        ctx.stats.count("not_confirmed", 1);
    }
    ctx.stats.count("bytes", (small.len() + large.len()) as u64);
    ctx.stats.nontrivial(crate::rng::fnv(large.as_bytes()));
    if ctx.idx % 23 == 5 {
        ctx.stats.sample(&format!("{} ({} ... {}) x {} bytes", name, fam.1, fam.2, large.len()));
    }
    Ok(())
}
