//! C04: a text is only accepted when all of it is accounted for.
use super::*;
use crate::print::{Printer, Tok, TK};
use ratel_codegen::codegen;

/// Lexer for texts without regular expressions, comments and the `/` punctuator. A template with substitutions is
/// one token up to each `${`, and one from each `}`. Says as well whether all brackets are closed, if it got that far.
pub fn lex(src: &str) -> (Option<Vec<String>>, bool) {
    let c: Vec<char> = src.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let mut st = vec![];
    const P: &[&str] = &[
        ">>>=", "===", "!==", ">>>", "<<=", ">>=", "**=", "...", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "%=", "&=", "|=", "^=", "<<", ">>", "**",
    ];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
            continue;
        }
        let b = i;
        if x == '"' || x == '\'' {
            i += 1;
            while i < c.len() && c[i] != x {
                if c[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
        } else if x == '`' || x == '}' && st.last() == Some(&'$') {
            if x == '}' {
                st.pop();
            }
            i += 1;
            loop {
                match (c.get(i), c.get(i + 1)) {
                    (None, _) => return (None, false),
                    (Some('`'), _) => {
                        i += 1;
                        break;
                    }
                    (Some('$'), Some('{')) => {
                        st.push('$');
                        i += 2;
                        break;
                    }
                    (Some('\\'), _) => i += 2,
                    _ => i += 1,
                }
            }
        } else if x.is_ascii_digit() || (x == '.' && c.get(i + 1).map_or(false, |d| d.is_ascii_digit())) {
            let radix = x == '0' && matches!(c.get(i + 1), Some('x' | 'X' | 'o' | 'O' | 'b' | 'B'));
            let mut dot = radix;
            while i < c.len() {
                let exp = !radix && i > b && matches!(c[i - 1], 'e' | 'E');
                match c[i] {
                    '.' if !dot => dot = true,
                    '+' | '-' if exp => {}
                    'e' | 'E' => dot = true,
                    d if d.is_alphanumeric() => {}
                    _ => break,
                }
                i += 1;
            }
        } else if x.is_alphanumeric() || x == '_' || x == '$' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                i += 1;
            }
        } else if x == '/' || x == '\\' || x == '#' || x == '@' {
            return (None, true);
        } else if "([{".contains(x) {
            st.push(x);
            i += 1;
        } else if ")]}".contains(x) {
            if st.pop() != Some(if x == ')' { '(' } else if x == ']' { '[' } else { '{' }) {
                return (None, false);
            }
            i += 1;
        } else {
            let rest: String = c[i..(i + 4).min(c.len())].iter().collect();
            i += P.iter().find(|p| rest.starts_with(**p)).map_or(1, |p| p.len());
        }
        if i > c.len() {
            return (None, false);
        }
        v.push(c[b..i].iter().collect());
    }
    (Some(v), st.is_empty())
}

/// Tokens that printing may neither drop, add, duplicate nor reorder
fn significant(t: &str) -> bool {
    !matches!(t, "(" | ")" | ";" | ",")
}

/// No `/` in any token: what is a regular expression depends on what comes before it.
fn deslash(x: &mut T) {
    match x.k {
        K::LitRe => {
            *x = leaf(K::LitNum, "7");
        }
        K::Binary if x.s == "/" => x.s = "*".into(),
        K::Binary if x.s == "/=" => x.s = "*=".into(),
        _ => {}
    }
    for c in &mut x.c {
        deslash(c);
    }
}

fn join(toks: &[Tok]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push(if matches!(toks[i - 1].s.as_str(), ";" | "{" | "}") && toks[i - 1].kind == TK::Punct && !t.no_nl { '\n' } else { ' ' });
        }
        s.push_str(&t.s);
    }
    s
}

fn punct(s: &str) -> Tok {
    Tok { s: s.into(), group: false, semi: print::Semi::No, no_nl: false, no_comment: false, kind: TK::Punct, start: 0, end: 0, nl_before: false, dropped: false, arrow: false }
}

fn word(s: &str) -> Tok {
    Tok { kind: TK::Word, ..punct(s) }
}

/// Operators that need an operand on their left (not `*`, which may stand before the name of a method, nor `/`)
const BINARY: &[&str] = &[
    "%", "**", "&&", "||", "==", "!=", "===", "!==", "<", "<=", ">", ">=", "&", "|", "^", "<<", ">>", ">>>", "=", "+=", "-=", "*=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=",
];

/// Words that can never stand twice in a row on one line
const ONCE: &[&str] = &[
    "if", "else", "for", "while", "function", "class", "extends", "var", "let", "const", "return", "throw", "try", "catch", "finally", "switch", "case", "default", "break", "continue", "debugger", "import", "in",
    "instanceof", "this", "null", "true", "false", "super",
];

/// Words no expression begins with
const NO_OPERAND: &[&str] = &[
    "if", "else", "for", "while", "do", "extends", "var", "const", "return", "throw", "try", "catch", "finally", "switch", "case", "default", "break", "continue", "debugger", "in", "instanceof", "with", "enum",
    "export",
];

/// The bracket each token stands in (for a bracket, the one around it)
fn innermost(toks: &[Tok]) -> Vec<char> {
    let mut st = vec![' '];
    toks.iter()
        .map(|t| {
            if t.kind == TK::Punct && matches!(t.s.as_str(), ")" | "]" | "}") {
                st.pop();
            }
            let at = *st.last().unwrap_or(&' ');
            if t.kind == TK::Punct && matches!(t.s.as_str(), "(" | "[" | "{") {
                st.push(t.s.chars().next().unwrap());
            }
            at
        })
        .collect()
}

/// Is this a separator that may not be doubled?
fn separator(toks: &[Tok], inner: &[char], i: usize) -> bool {
    if toks[i].kind != TK::Punct {
        return false;
    }
    match toks[i].s.as_str() {
        "," => inner[i] != '[',
        ";" => inner[i] == '(',
        ":" | "." | "?" | "=>" | "..." => true,
        "*" => false,
        s => BINARY.contains(&s),
    }
}

/// Does an operand surely begin and end with this token?
fn operand(t: &Tok) -> bool {
    match t.kind {
        TK::Num | TK::Str => true,
        TK::Word => matches!(t.s.as_str(), "this" | "null" | "true" | "false") || !(crate::synth::RESERVED.contains(&t.s.as_str()) || matches!(t.s.as_str(), "get" | "set" | "as" | "from" | "of")),
        _ => false,
    }
}

pub fn c04(ctx: &mut Ctx) -> Res {
    let mut tree = gen::program(&mut ctx.r, ctx.idx, true);
    gen::famous(&mut ctx.r, &mut tree);
    deslash(&mut tree);
    let st = style(&mut ctx.r);
    let toks = {
        let mut p = Printer::new(&mut ctx.r, st);
        p.module(&mut tree);
        p.toks
    };
    if toks.is_empty() {
        return Ok(());
    }
    let n = toks.len();
    for _ in 0..if n < 40 { 6 } else { 2 } {
        let mut m = toks.clone();
        let brackets: Vec<usize> = (0..n).filter(|i| toks[*i].kind == TK::Punct && matches!(toks[*i].s.as_str(), "(" | ")" | "[" | "]" | "{" | "}")).collect();
        let mode = ctx.r.below(18);
        let (name, must_reject) = match mode {
            0 if !brackets.is_empty() => {
                m.remove(*ctx.r.pick(&brackets));
                ("bracket removed", true)
            }
            1 => {
                let at = ctx.r.range(0, n);
                m.insert(at, punct(*ctx.r.pick(&["(", ")", "[", "]", "{", "}"])));
                ("bracket added", true)
            }
            2 if n > 1 => {
                m.truncate(ctx.r.range(1, n - 1));
                ("truncated", false)
            }
            3 => {
                // a binary operator without a right operand
                let ends: Vec<usize> = (1..n).filter(|i| toks[*i].kind == TK::Punct && matches!(toks[*i].s.as_str(), ")" | "]" | "}" | ";" | ",")).collect();
                if ends.is_empty() {
                    continue;
                }
                let at = *ctx.r.pick(&ends);
                let words = matches!(toks[at].s.as_str(), ")" | "]") && ctx.r.chance(1, 8);
                let t = if words {
                    word(*ctx.r.pick(&["in", "instanceof", "typeof", "void", "delete", "new"]))
                } else if ctx.r.chance(1, 3) {
                    punct(*ctx.r.pick(&[".", "?", "+", "-", "!", "~", "...", "=>"]))
                } else {
                    punct(*ctx.r.pick(BINARY))
                };
                m.insert(at, t);
                ("operator without operand", true)
            }
            4 => {
                let starts: Vec<usize> = (0..n).filter(|i| toks[*i].kind == TK::Punct && matches!(toks[*i].s.as_str(), "(" | "[" | "{" | ";" | "," | "=" | "=>")).collect();
                if starts.is_empty() {
                    continue;
                }
                let at = *ctx.r.pick(&starts);
                let words = matches!(toks[at].s.as_str(), "(" | "[" | "=" | "=>") && ctx.r.chance(1, 8);
                let t = if words {
                    word(*ctx.r.pick(&["in", "instanceof"]))
                } else if ctx.r.chance(1, 4) {
                    punct(*ctx.r.pick(&[".", "?", ":", "=>"]))
                } else {
                    punct(*ctx.r.pick(BINARY))
                };
                m.insert(at + 1, t);
                ("operator without left operand", true)
            }
            5 => {
                // two operands in a row
                let at: Vec<usize> = (0..n).filter(|i| operand(&toks[*i])).collect();
                if at.is_empty() {
                    continue;
                }
                let at = *ctx.r.pick(&at);
                // after a name only what cannot be the rest of something
                let t = if toks[at].kind == TK::Word { *ctx.r.pick(&["5", "0b1"]) } else { *ctx.r.pick(&["5", "'s'", "true", "zz", "this"]) };
                let mut t = punct(t);
                t.kind = TK::Word;
                m.insert(at + 1, t);
                ("operands without operator", true)
            }
            8 | 9 => {
                // what stands between two operands is gone
                let at: Vec<usize> = (1..n.max(2) - 1).filter(|i| toks[*i].kind == TK::Punct && operand(&toks[*i - 1]) && operand(&toks[*i + 1])).collect();
                if at.is_empty() {
                    continue;
                }
                m.remove(*ctx.r.pick(&at));
                // on one line
                for t in &mut m {
                    t.no_nl = true;
                }
                ("separator removed", true)
            }
            10 => {
                // an arrow function is no operand
                let at: Vec<usize> = (0..n).filter(|i| toks[*i].arrow).collect();
                if at.is_empty() {
                    continue;
                }
                let at = *ctx.r.pick(&at) + 1;
                let mut word = punct("zz");
                word.kind = TK::Word;
                let tail = match ctx.r.below(4) {
                    0 => vec![punct("("), word, punct(")")],
                    1 => vec![punct("["), word, punct("]")],
                    2 => vec![punct("?"), word.clone(), punct(":"), word],
                    _ => vec![punct(*ctx.r.pick(&["%", "*", "**", "&&", "||", "==", "!==", "<=", "&", "|", "^", "<<", ">>>", "=", "+=", ".", "-", "+", "=>"])), word],
                };
                m.splice(at..at, tail);
                m[at].no_nl = true;
                ("operator on an arrow function", true)
            }
            11 => {
                // a separator without anything between it and the one before
                let inner = innermost(&toks);
                let at: Vec<usize> = (0..n).filter(|i| separator(&toks, &inner, *i)).collect();
                if at.is_empty() {
                    continue;
                }
                let at = *ctx.r.pick(&at);
                let t = toks[at].clone();
                m.insert(at + 1, t);
                m[at + 1].no_nl = true;
                ("separator doubled", true)
            }
            12 => {
                // a separator before anything to separate
                let inner = innermost(&toks);
                let at: Vec<usize> = (0..n).filter(|i| toks[*i].kind == TK::Punct && (matches!(toks[*i].s.as_str(), "(" | "{") || toks[*i].s == ";" && inner[*i] != '(')).collect();
                if at.is_empty() {
                    continue;
                }
                m.insert(*ctx.r.pick(&at) + 1, punct(*ctx.r.pick(&[",", ",", ",", ":", ".", "=>", "="])));
                ("separator first", true)
            }
            13 => {
                // a word twice
                let at: Vec<usize> = (0..n).filter(|i| toks[*i].kind == TK::Word && ONCE.contains(&toks[*i].s.as_str()) && !(*i > 0 && toks[*i - 1].s == ".")).collect();
                if at.is_empty() {
                    continue;
                }
                let at = *ctx.r.pick(&at);
                let t = toks[at].clone();
                m.insert(at + 1, t);
                m[at + 1].no_nl = true;
                ("keyword doubled", true)
            }
            14 | 15 => {
                // another word or punctuator
                let i = ctx.r.below(n);
                let t = match toks[i].kind {
                    TK::Word => word(*ctx.r.pick(crate::synth::RESERVED)),
                    TK::Punct if !matches!(toks[i].s.as_str(), "(" | ")" | "[" | "]" | "{" | "}") => punct(*ctx.r.pick(&[",", ";", ":", ".", "=>", "...", "?", "=", "++", "-", "!", "*", "**=", "&&", "<", "==", ">>>", "^"])),
                    _ => continue,
                };
                m[i] = t;
                ("token replaced", false)
            }
            16 => {
                // a word where an operand has to begin
                let at: Vec<usize> = (1..n)
                    .filter(|i| {
                        let before = &toks[*i - 1];
                        let opens = before.kind == TK::Punct && (BINARY.contains(&before.s.as_str()) || before.s == "[" || before.s == "(" && !(*i > 1 && toks[*i - 2].s == "for"));
                        opens && (operand(&toks[*i]) || toks[*i].kind == TK::Word && matches!(toks[*i].s.as_str(), "function" | "class"))
                    })
                    .collect();
                if at.is_empty() {
                    continue;
                }
                m[*ctx.r.pick(&at)] = word(*ctx.r.pick(NO_OPERAND));
                ("word as operand", true)
            }
            17 => {
                // a value where there has to be something to assign to
                let at: Vec<usize> = (1..n)
                    .filter(|i| {
                        let (before, x) = (&toks[*i - 1], &toks[*i]);
                        let literal = matches!(x.kind, TK::Num | TK::Str) || x.kind == TK::Word && matches!(x.s.as_str(), "this" | "null" | "true" | "false");
                        let ends = toks.get(*i + 1).map_or(true, |t| t.kind == TK::Punct && matches!(t.s.as_str(), ")" | "]" | "}" | ";" | ","));
                        let assigns = before.s.ends_with('=') && !matches!(before.s.as_str(), "==" | "!=" | "===" | "!==" | "<=" | ">=");
                        before.kind == TK::Punct
                            && (literal && (BINARY.contains(&before.s.as_str()) || matches!(before.s.as_str(), "(" | "[" | "=>"))
                                || ends && operand(x) && (BINARY.contains(&before.s.as_str()) && !assigns || matches!(before.s.as_str(), "!" | "~")))
                    })
                    .collect();
                if at.is_empty() {
                    continue;
                }
                let at = *ctx.r.pick(&at);
                if ctx.r.chance(1, 4) && !matches!(toks[at].kind, TK::Word) {
                    m.insert(at + 1, punct(*ctx.r.pick(&["++", "--"])));
                } else {
                    m.insert(at + 1, punct(*ctx.r.pick(&["=", "+=", "-=", "*=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "/="])));
                    m.insert(at + 2, word("zz"));
                }
                m[at + 1].no_nl = true;
                ("assignment to a value", true)
            }
            6 => {
                let (i, j) = (ctx.r.below(n), ctx.r.below(n));
                m.swap(i, j);
                ("two tokens swapped", false)
            }
            _ => {
                let i = ctx.r.below(n);
                if ctx.r.chance(1, 2) {
                    m.remove(i);
                    ("token removed", false)
                } else {
                    let t = m[i].clone();
                    let at = ctx.r.range(0, n);
                    m.insert(at, t);
                    ("token duplicated", false)
                }
            }
        };
        let src = join(&m);
        let (read, balanced) = lex(&src);
        // a bracket may have become part of a template, or ended its substitution
        let must_reject = must_reject && !(mode < 2 && balanced) || !balanced;
        let m: Vec<String> = match read {
            Some(v) => v,
            None if must_reject => vec![],
            None => {
                ctx.stats.count("inconclusive_text", 1);
                continue;
            }
        };
        current(&src);
        ctx.stats.count("mutants", 1);
        match ratel::parse(&src) {
            Err(_) => {
                ctx.stats.count("rejected", 1);
                ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
            }
            Ok(module) => {
                if must_reject {
                    return Err(bad(format!("accepted: {}", name), format!("malformed text accepted ({})", name), src));
                }
                let out = codegen(&module, false);
                account(ctx, &m, &src, &out)?;
            }
        }
    }
    // the untouched program
    let src = join(&toks);
    current(&src);
    if ctx.idx % 499 == 7 {
        ctx.stats.sample(&src);
    }
    if let (Ok(module), Some(toks)) = (ratel::parse(&src), lex(&src).0) {
        let out = codegen(&module, false);
        account(ctx, &toks, &src, &out)?;
    }
    Ok(())
}

fn account(ctx: &mut Ctx, m: &[String], src: &str, out: &str) -> Res {
    ctx.stats.count("accepted_texts_accounted", 1);
    // the quotes around the source of an import are not kept
    fn unquote(v: &mut Vec<&str>) {
        // `x as x` is `x`, and an empty list of names is none
        let mut i = 0;
        while i < v.len() {
            let name = i > 0 && v[i - 1] == "." || matches!(v.get(i + 1), None | Some(&"(" | &"=" | &":" | &"."));
            if v[i] == "import" && !name {
                let mut j = i + 1;
                while j < v.len() && v[j] != ";" && !v[j].starts_with('"') && !v[j].starts_with('\'') {
                    if v[j..].starts_with(&["{", "}"]) {
                        v.drain(j..j + 2);
                        // without any name there is no `from` either
                        if j == i + 1 && v.get(j) == Some(&"from") {
                            v.remove(j);
                        }
                        continue;
                    }
                    let word = v[j].chars().next().map_or(false, |c| c.is_alphanumeric() || matches!(c, '_' | '$'));
                    if j + 2 < v.len() && word && v[j + 1] == "as" && v[j] == v[j + 2] && (v[j] != "as" || matches!(v[j - 1], "{" | ",")) {
                        v.drain(j + 1..j + 3);
                    }
                    j += 1;
                }
            }
            i += 1;
        }
        for i in 1..v.len() {
            if matches!(v[i - 1], "from" | "import") && v[i].len() > 1 && (v[i].starts_with('"') || v[i].starts_with('\'')) {
                v[i] = &v[i][1..v[i].len() - 1];
            }
        }
    }
    let mut want: Vec<&str> = m.iter().map(|t| t.as_str()).collect();
    let Some(got) = lex(out).0 else {
        ctx.stats.count("inconclusive_output", 1);
        return Ok(());
    };
    let mut got: Vec<&str> = got.iter().map(|s| s.as_str()).collect();
    unquote(&mut want);
    unquote(&mut got);
    want.retain(|s| significant(s));
    got.retain(|s| significant(s));
    if want != got {
        let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        return Err(bad(
            format!("not accounted for: {:?}", want.get(i).map(|s| if s.len() > 10 { "…" } else { s })),
            format!("token {} of the accepted text is {:?}, printed {:?}\nprinted: {}", i, want.get(i), got.get(i), out),
            src,
        ));
    }
    ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
    Ok(())
}
