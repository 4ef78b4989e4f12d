//! C21: minified output carries no layout, pretty output is laid out by nesting.
use super::*;
use ratel_codegen::codegen;

#[derive(Clone, Copy, PartialEq, Debug)]
enum L {
    Word,
    Num,
    Str,
    /// A piece of a template: from the backtick or brace to the brace or backtick
    Tpl,
    Op,
}

const OPS: &[&str] = &[
    ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "<<", ">>", "**", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
];

/// Tokens of a printed text without regular expressions and comments. None: not something this can tell apart.
fn scan(s: &str) -> Option<Vec<(L, usize, usize)>> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut braces: Vec<bool> = vec![];
    let mut i = 0;
    let tpl = |mut i: usize| -> Option<(usize, bool)> {
        loop {
            match *b.get(i)? {
                b'`' => return Some((i + 1, false)),
                b'\\' => i += 2,
                b'$' if b.get(i + 1) == Some(&b'{') => return Some((i + 2, true)),
                _ => i += 1,
            }
        }
    };
    while i < b.len() {
        let a = i;
        let c = b[i];
        let k = match c {
            b' ' | b'\n' | b'\r' | b'\t' | 0xb | 0xc => {
                i += 1;
                continue;
            }
            b'"' | b'\'' => {
                i += 1;
                while *b.get(i)? != c {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
                L::Str
            }
            b'`' => {
                let (j, open) = tpl(i + 1)?;
                i = j;
                if open {
                    braces.push(true);
                }
                L::Tpl
            }
            b'{' => {
                braces.push(false);
                i += 1;
                L::Op
            }
            b'}' => {
                if braces.pop()? {
                    let (j, open) = tpl(i + 1)?;
                    i = j;
                    if open {
                        braces.push(true);
                    }
                    L::Tpl
                } else {
                    i += 1;
                    L::Op
                }
            }
            _ if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).map_or(false, |d| d.is_ascii_digit())) => {
                let hex = c == b'0' && b.get(i + 1).map_or(false, |d| d.is_ascii_alphabetic() && !matches!(d, b'e' | b'E'));
                let mut dot = false;
                while i < b.len() {
                    let d = b[i];
                    if d == b'.' && !dot && !hex {
                        dot = true;
                        i += 1;
                    } else if matches!(d, b'e' | b'E') && !hex {
                        dot = true;
                        i += 1;
                        if matches!(b.get(i), Some(b'+') | Some(b'-')) {
                            i += 1;
                        }
                    } else if d.is_ascii_alphanumeric() {
                        i += 1;
                    } else {
                        break;
                    }
                }
                L::Num
            }
            _ if c.is_ascii_alphabetic() || matches!(c, b'$' | b'_') || c >= 0x80 => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'$' | b'_') || b[i] >= 0x80) {
                    i += 1;
                }
                L::Word
            }
            _ => {
                i += OPS.iter().find(|o| s[i..].starts_with(**o)).map_or(1, |o| o.len());
                L::Op
            }
        };
        v.push((k, a, i));
    }
    Some(v)
}

fn context(s: &str, i: usize) -> String {
    let (mut a, mut b) = (i.saturating_sub(30), (i + 30).min(s.len()));
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{:?}", &s[a..b])
}

/// Line starts and their indentation
struct Lines<'a> {
    s: &'a str,
    starts: Vec<usize>,
}

impl<'a> Lines<'a> {
    fn new(s: &'a str) -> Self {
        let mut starts = vec![0];
        starts.extend(s.bytes().enumerate().filter(|(_, c)| *c == b'\n').map(|(i, _)| i + 1));
        Lines { s, starts }
    }
    fn of(&self, at: usize) -> usize {
        self.starts.partition_point(|x| *x <= at) - 1
    }
    fn indent(&self, line: usize) -> usize {
        self.s[self.starts[line]..].bytes().take_while(|c| *c == b' ').count()
    }
}

fn nested(x: &T, depth: usize, l: &Lines, out: &mut Option<(String, usize)>, seen: &mut [u64; 2]) {
    if out.is_some() {
        return;
    }
    // the range of a property name is that of the token after it
    if x.end > x.start && !x.is(K::Name) {
        let line = l.of(x.start as usize);
        seen[0] += 1;
        if l.indent(line) != depth * 4 {
            *out = Some((format!("{:?} at depth {} on a line indented by {}", x.k, depth, l.indent(line)), x.start as usize));
            return;
        }
    }
    if x.end > x.start {
        let head = match x.k {
            K::If => "if (",
            K::While => "while (",
            K::For | K::ForIn | K::ForOf => "for (",
            K::Switch => "switch (",
            K::Try => "try {",
            K::Do => "do ",
            K::FnDecl => if x.s == "*" { "function* " } else { "function " },
            _ => "",
        };
        let body = match x.k {
            K::If => &x.c[1..],
            K::While | K::ForIn | K::ForOf | K::For | K::FnDecl | K::FnExpr | K::Method | K::Labeled => &x.c[x.c.len() - 1..],
            K::Do => &x.c[..1],
            _ => &[],
        };
        if !l.s[x.start as usize..].starts_with(head) {
            *out = Some((format!("{:?} without {:?}", x.k, head), x.start as usize));
        }
        for b in body {
            // an expression can begin before its node does
            if b.end > b.start && !b.is(K::ExprStmt) && !l.s[..b.start as usize].ends_with(' ') {
                *out = Some((format!("no space before {:?} in {:?}", b.k, x.k), b.start as usize));
            }
        }
    }
    let (first, list) = match x.k {
        K::Block | K::ClassBody | K::Object => (0, 1),
        K::Switch => (1, 1),
        // what comes after the test
        K::Case => (1, 1),
        K::Module => (0, 0),
        _ => (x.c.len(), 0),
    };
    for (i, c) in x.c.iter().enumerate() {
        nested(c, depth + if i >= first { list } else { 0 }, l, out, seen);
        // each on lines of its own
        if i > first && matches!(x.k, K::Block | K::ClassBody | K::Object | K::Module | K::Switch | K::Case) && c.end > c.start {
            let p = &x.c[i - 1];
            seen[1] += 1;
            if out.is_none() && l.of(c.start as usize) <= l.of((p.end as usize).max(1) - 1) {
                *out = Some((format!("{:?} on the line of the {:?} before it", c.k, p.k), c.start as usize));
            }
        }
    }
    // the first one is not on the line of the bracket, the closing bracket is first on its own line
    if matches!(x.k, K::Block | K::ClassBody | K::Object) && !x.c.is_empty() && x.end > x.start && out.is_none() {
        let end = x.end as usize - 1;
        let line = l.of(end);
        if l.s.as_bytes()[end] == b'}' && (l.indent(line) != depth * 4 || l.starts[line] + depth * 4 != end) {
            *out = Some((format!("closing bracket of {:?} at depth {}", x.k, depth), end));
        }
        if l.s.as_bytes()[x.start as usize] == b'{' && x.c[0].end > x.c[0].start && l.of(x.c[0].start as usize) == l.of(x.start as usize) {
            *out = Some((format!("first of {:?} on the line of the opening bracket", x.k), end));
        }
    }
}

pub fn c21(ctx: &mut Ctx) -> Res {
    let mut tree = gen::program(&mut ctx.r, ctx.idx, true);
    gen::famous(&mut ctx.r, &mut tree);
    // no line breaks within tokens; regular expressions are left to other properties
    tree.walk_mut(&mut |x| {
        if x.is(K::LitRe) {
            x.k = K::LitNum;
            x.s = "7".into();
        }
        if matches!(x.k, K::LitStr | K::Quasi | K::KeyLit | K::Import) {
            let mut o = String::new();
            let mut it = x.s.chars().peekable();
            while let Some(c) = it.next() {
                match c {
                    '\\' => {
                        let d = it.next();
                        match d {
                            Some('\n') => o.push('-'),
                            Some('\r') => {
                                it.next_if_eq(&'\n');
                                o.push('-');
                            }
                            Some(d) => o.extend([c, d]),
                            None => o.push(c),
                        }
                    }
                    '\n' | '\r' => o.push('-'),
                    _ => o.push(c),
                }
            }
            x.s = o;
        }
    });
    let p = super::write(ctx, tree);
    let m = ratel::parse(&p.src).map_err(|e| bad("rejected", errs(&e), &*p.src))?;
    let (min, pre) = (codegen(&m, true), codegen(&m, false));
    let (Some(mt), Some(pt)) = (scan(&min), scan(&pre)) else {
        ctx.stats.count("inconclusive_output", 1);
        return Ok(());
    };
    // both have the same tokens
    if mt.len() != pt.len() || mt.iter().zip(&pt).any(|(a, b)| a.0 != b.0 || min[a.1..a.2] != pre[b.1..b.2]) {
        let i = mt.iter().zip(&pt).take_while(|(a, b)| a.0 == b.0 && min[a.1..a.2] == pre[b.1..b.2]).count();
        let (a, b) = (mt.get(i).map_or(min.len(), |x| x.1), pt.get(i).map_or(pre.len(), |x| x.1));
        return Err(bad("modes differ in a token", format!("{} and {}; tokens of the minified and the pretty output differ\nminified: {}\npretty: {}", context(&min, a), context(&pre, b), min, pre), &*p.src));
    }
    ctx.stats.count("tokens", mt.len() as u64);
    if min.len() > pre.len() {
        return Err(bad("minified is longer", format!("minified: {}\npretty: {}", min, pre), &*p.src));
    }
    // nothing that the program does not need: the tokens of another printer, which writes no optional ones
    let toks = {
        let mut r = crate::rng::Rng::new(1);
        let mut w = crate::print::Printer::new(&mut r, crate::print::Style { parens: 0, variety: false });
        let mut t = p.tree.clone();
        w.module(&mut t);
        w.toks
    };
    let mine = |c: &str| toks.iter().filter(|t| t.s == c).count();
    let theirs = |c: &str| mt.iter().filter(|x| x.0 == L::Op && &min[x.1..x.2] == c).count();
    let optional = |f: &dyn Fn(&str) -> usize, all: usize| all - f("(") - f(")") - f(",") - f(";");
    let (need, have) = (optional(&mine, toks.len()), optional(&theirs, mt.len()));
    if need != have {
        return Err(bad("number of tokens", format!("{} instead of {}, parentheses, commas and semicolons aside: {}", have, need, min), &*p.src));
    }
    if theirs(";") > mine(";") {
        return Err(bad("needless semicolons", format!("{} instead of {}: {}", theirs(";"), mine(";"), min), &*p.src));
    }
    // an array may keep the comma after its last item
    let mut arrays = 0;
    p.tree.walk(&mut |x| arrays += (matches!(x.k, K::Array | K::PatArr) && !x.c.is_empty()) as usize);
    if theirs(",") > mine(",") + arrays {
        return Err(bad("needless commas", format!("{} instead of {}: {}", theirs(","), mine(","), min), &*p.src));
    }
    let (need, have) = (mine("("), theirs("("));
    // habits: parentheses around what starts with an object, function or class, although that one has parentheses already
    let mut allow = 0;
    p.tree.walk(&mut |x| {
        let whole = match x.k {
            // `1 .a` would do
            K::Member => {
                allow += (x.c[0].is(K::LitNum) && x.c[0].s.bytes().all(|b| b.is_ascii_digit())) as usize;
                return;
            }
            // and around what the head of a loop starts with, or a variable there, that contains `in` anywhere
            K::For => {
                let parts = if x.c[0].is(K::Decl) { &x.c[0].c[..] } else { &x.c[..1] };
                for part in parts {
                    let mut is = false;
                    part.walk(&mut |y| is |= y.is(K::Binary) && y.s == "in");
                    allow += is as usize;
                }
                return;
            }
            // and around `new` without arguments as the parent class
            K::ClassExpr | K::ClassDecl => {
                allow += (x.c[1].is(K::Prefix) && x.c[1].s == "new") as usize;
                return;
            }
            K::ExprStmt => &x.c[0],
            K::Arrow => x.c.last().unwrap(),
            _ => return,
        };
        let mut l = whole;
        while matches!(l.k, K::Seq | K::Member | K::CMember | K::Call | K::Binary | K::Postfix | K::Cond | K::Tagged) {
            l = &l.c[0];
        }
        allow += matches!(l.k, K::Object | K::FnExpr | K::ClassExpr) as usize;
    });
    if have > need + allow {
        return Err(bad("needless parentheses", format!("{} instead of {}: {}", have, need, min), &*p.src));
    }
    ctx.stats.count("parentheses", have as u64);
    let ends = |s: &str, v: &[(L, usize, usize)]| v.first().map_or(s.is_empty(), |x| x.1 == 0) && v.last().map_or(true, |x| x.2 == s.len());
    if !ends(&min, &mt) || !ends(&pre, &pt) {
        return Err(bad("white space around the program", format!("minified: {:?}\npretty: {:?}", min, pre), &*p.src));
    }
    let text = |s: &'_ str, x: (L, usize, usize)| s[x.1..x.2].to_string();
    for w in mt.windows(2) {
        let gap = &min[w[0].2..w[1].1];
        if gap.is_empty() {
            continue;
        }
        ctx.stats.count("spaces_in_minified", 1);
        let (a, b) = (text(&min, w[0]), text(&min, w[1]));
        // words next to anything, and operators that would become another one
        let word = |k: L, s: &str| k == L::Word && crate::synth::RESERVED.contains(&s) || matches!(s, "as" | "from" | "of" | "get" | "set");
        let needed = word(w[0].0, &a) || word(w[1].0, &b) || (matches!(w[0].0, L::Word | L::Num) && matches!(w[1].0, L::Word | L::Num)) || (w[0].0 == L::Op && w[1].0 == L::Op && "+-</".contains(&a[a.len() - 1..]) && "+-!/(".contains(&b[..1])) || (a == "*" && w[1].0 == L::Word);
        if gap != " " || !needed {
            return Err(bad(format!("white space in minified output: {:?}", gap), format!("between {:?} and {:?} stands {:?}\nminified: {}", a, b, gap, min), &*p.src));
        }
    }
    let mut import = false;
    // the keyword of a handler, which goes on after a block
    let (mut after, mut switch, mut heads) = (false, false, vec![]);
    if pt.first().map_or(false, |t| t.0 == L::Op && text(&pre, *t) == "(") {
        heads.push(false);
    }
    for w in pt.windows(2) {
        let gap = &pre[w[0].2..w[1].1];
        let nl = gap.contains('\n');
        let (a, b) = (text(&pre, w[0]), text(&pre, w[1]));
        let spaced = |s: &str| matches!(s, "=" | "=>" | "===" | "!==" | "==" | "!=" | "&&" | "||" | "<=" | ">=" | "<" | ">" | "<<" | ">>" | ">>>" | "%" | "&" | "|" | "^" | "?" | "**" | "/")
            || s.len() > 1 && s.ends_with('=');
        let want = |cond: bool, why: &str| -> Res {
            if cond { Ok(()) } else { Err(bad(format!("spacing in pretty output: {}", why), format!("{}, between {:?} and {:?} stands {:?}\npretty: {}", why, a, b, gap, pre), &*p.src)) }
        };
        // a class without a name has the space in front of the name as well
        want(nl || gap.is_empty() || gap == " " || a == "class" && gap == "  ", "more than a space")?;
        if w[0].0 == L::Op && spaced(&a) || w[1].0 == L::Op && spaced(&b) {
            want(gap == " ", "a space on both sides of an operator")?;
        }
        import = w[0].0 == L::Word && a == "import" || import && w[0].0 != L::Str;
        if a == "," && w[0].0 == L::Op && !(import && matches!(b.as_str(), "{" | "*")) {
            want(nl || gap == " ", "a space or line after a comma")?;
        }
        let op = |i: usize, l: &[&str]| w[i].0 == L::Op && l.iter().any(|o| *o == if i == 0 { a.as_str() } else { b.as_str() });
        if op(0, &["(", "[", ".", "...", "!", "~"]) && !op(1, &[",", ";"]) || op(1, &["."]) {
            want(gap.is_empty(), "nothing within")?;
        }
        if op(1, &[")", "]", ","]) && !op(0, &[",", ";"]) {
            want(gap.is_empty(), "nothing before")?;
        }
        // `switch (a){` and `do {}while` have none
        if op(1, &["("]) {
            heads.push(a == "switch");
        }
        if op(0, &[")"]) {
            switch = heads.pop().unwrap_or(false);
        }
        if op(1, &["{"]) && (op(0, &[")"]) && !switch || w[0].0 == L::Word) {
            want(gap == " " || a == "class" && gap == "  ", "a space before a brace")?;
        }
        if after && op(1, &["("]) {
            want(gap == " ", "a space after catch")?;
        }
        after = op(0, &["}"]) && w[1].0 == L::Word && !nl && matches!(b.as_str(), "catch" | "finally" | "else");
        if after {
            want(gap == " ", "a space before what goes on after a block")?;
        }
        if op(0, &[":"]) {
            want(nl || gap == " ", "a space or line after a colon")?;
        }
        if op(0, &[";"]) && b != "while" {
            want(nl || gap == " ", "a space or line after a semicolon")?;
        }
        if nl && !matches!(a.as_str(), "{" | ";" | "}" | "," | ":") && !matches!(b.as_str(), "}" | ";") {
            want(false, "line break within a line")?;
        }
    }
    let got = ratel::parse(&pre).map_err(|e| bad("pretty output does not parse", errs(&e), &*p.src))?;
    let got = conv::module(&got);
    let lines = Lines::new(&pre);
    let (mut out, mut seen) = (None, [0, 0]);
    nested(&got, 0, &lines, &mut out, &mut seen);
    ctx.stats.count("nodes_on_lines", seen[0]);
    ctx.stats.count("neighbours", seen[1]);
    ctx.stats.max("max_lines", lines.starts.len() as u64);
    if let Some((why, at)) = out {
        return Err(bad(format!("layout: {}", why.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()), format!("{}: near {}\npretty: {}", why, context(&pre, at), pre), &*p.src));
    }
    note(ctx, &p);
    Ok(())
}
