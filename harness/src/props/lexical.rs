//! C15: the tokens of a text. A second scanner, written from the lexical grammar, runs alongside.
use super::*;
use crate::hostile;
use crate::synth;
use ratel::ast::OperatorKind;
use ratel::lexer::{Asi, Lexer};

const WORDS: &[(&str, &str)] = &[
    ("new", "OperatorNew"), ("typeof", "OperatorTypeof"), ("void", "OperatorVoid"), ("delete", "OperatorDelete"), ("instanceof", "OperatorInstanceof"), ("in", "OperatorIn"),
    ("var", "DeclarationVar"), ("let", "DeclarationLet"), ("const", "DeclarationConst"), ("break", "Break"), ("do", "Do"), ("case", "Case"), ("else", "Else"), ("catch", "Catch"),
    ("export", "Export"), ("class", "Class"), ("extends", "Extends"), ("return", "Return"), ("while", "While"), ("finally", "Finally"), ("super", "Super"), ("with", "With"),
    ("continue", "Continue"), ("for", "For"), ("switch", "Switch"), ("yield", "Yield"), ("debugger", "Debugger"), ("function", "Function"), ("this", "This"), ("default", "Default"),
    ("if", "If"), ("throw", "Throw"), ("import", "Import"), ("try", "Try"), ("static", "Static"), ("true", "LiteralTrue"), ("false", "LiteralFalse"), ("null", "LiteralNull"),
    ("undefined", "LiteralUndefined"), ("enum", "ReservedEnum"), ("implements", "ReservedImplements"), ("package", "ReservedPackage"), ("protected", "ReservedProtected"),
    ("interface", "ReservedInterface"), ("private", "ReservedPrivate"), ("public", "ReservedPublic"),
];

/// longest first
const PUNCT: &[(&str, &str)] = &[
    (">>>=", "OperatorUBSRAssign"),
    ("===", "OperatorStrictEquality"), ("!==", "OperatorStrictInequality"), (">>>", "OperatorUBitShiftRight"), ("<<=", "OperatorBSLAssign"), (">>=", "OperatorBSRAssign"), ("**=", "OperatorExponentAssign"), ("...", "OperatorSpread"),
    ("=>", "OperatorFatArrow"), ("++", "OperatorIncrement"), ("--", "OperatorDecrement"), ("**", "OperatorExponent"), ("<<", "OperatorBitShiftLeft"), (">>", "OperatorBitShiftRight"), ("<=", "OperatorLesserEquals"),
    (">=", "OperatorGreaterEquals"), ("==", "OperatorEquality"), ("!=", "OperatorInequality"), ("&&", "OperatorLogicalAnd"), ("||", "OperatorLogicalOr"), ("+=", "OperatorAddAssign"), ("-=", "OperatorSubtractAssign"),
    ("*=", "OperatorMultiplyAssign"), ("/=", "OperatorDivideAssign"), ("%=", "OperatorRemainderAssign"), ("&=", "OperatorBitAndAssign"), ("^=", "OperatorBitXorAssign"), ("|=", "OperatorBitOrAssign"), ("..", "UnexpectedToken"),
    (";", "Semicolon"), (":", "Colon"), (",", "Comma"), ("(", "ParenOpen"), (")", "ParenClose"), ("[", "BracketOpen"), ("]", "BracketClose"), ("{", "BraceOpen"), ("}", "BraceClose"),
    ("!", "OperatorLogicalNot"), ("~", "OperatorBitwiseNot"), ("*", "OperatorMultiplication"), ("/", "OperatorDivision"), ("%", "OperatorRemainder"), ("+", "OperatorAddition"), ("-", "OperatorSubtraction"),
    ("<", "OperatorLesser"), (">", "OperatorGreater"), ("&", "OperatorBitwiseAnd"), ("^", "OperatorBitwiseXor"), ("|", "OperatorBitwiseOr"), ("?", "OperatorConditional"), ("=", "OperatorAssign"),
];

const BAD: &str = "UnexpectedToken";
const CUT: &str = "UnexpectedEndOfProgram";

#[derive(Debug, PartialEq)]
struct Expect {
    kind: &'static str,
    start: usize,
    end: usize,
    /// name of a member access, text of a template part
    inner: Option<(usize, usize)>,
    asi: &'static str,
}

fn at(s: &str, i: usize) -> Option<char> {
    s[i..].chars().next()
}

/// Skip trivia from `i`; (position, a line ended, an unterminated comment)
fn skip(s: &str, mut i: usize) -> (usize, bool, bool) {
    let mut nl = false;
    loop {
        let rest = &s[i..];
        if rest.starts_with("//") {
            i += rest.find(['\n', '\r']).unwrap_or(rest.len());
            // a null byte ends no comment, but ratel gives up there
        } else if rest.starts_with("/*") {
            match rest[2..].find("*/") {
                None => return (i, nl, true),
                Some(n) => {
                    nl |= rest[..n + 2].contains(['\n', '\r']);
                    i += n + 4;
                }
            }
        } else {
            match rest.chars().next() {
                Some(c @ '\u{1}'..=' ') => {
                    nl |= c == '\n' || c == '\r';
                    i += 1;
                }
                _ => return (i, nl, false),
            }
        }
    }
}

fn ident_part(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '$' || c == '\\' || c as u32 > 127
}
fn ident_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == '$' || c == '\\' || (c as u32 > 127 && c.is_alphanumeric())
}
fn ident_end(s: &str, i: usize) -> usize {
    s[i..].find(|c| !ident_part(c)).map_or(s.len(), |n| i + n)
}
fn digits(s: &str, i: usize, f: fn(char) -> bool) -> usize {
    s[i..].find(|c| !f(c)).map_or(s.len(), |n| i + n)
}

fn number(s: &str, i: usize) -> (&'static str, usize) {
    let b = s.as_bytes();
    if b[i] == b'0' {
        let radix: Option<(fn(char) -> bool, &'static str)> = match b.get(i + 1) {
            Some(b'x' | b'X') => Some((|c| c.is_ascii_hexdigit(), "LiteralNumber")),
            Some(b'o' | b'O') => Some((|c| ('0'..='7').contains(&c), "LiteralNumber")),
            Some(b'b' | b'B') => Some((|c| c == '0' || c == '1', "LiteralBinary")),
            _ => None,
        };
        if let Some((f, k)) = radix {
            let e = digits(s, i + 2, f);
            return if e == i + 2 { (BAD, e) } else { (k, e) };
        }
    }
    let d = |c: char| c.is_ascii_digit();
    let mut e = digits(s, i, d);
    if b.get(e) == Some(&b'.') {
        e = digits(s, e + 1, d);
    }
    if matches!(b.get(e), Some(b'e' | b'E')) {
        let mut x = e + 1;
        if matches!(b.get(x), Some(b'+' | b'-')) {
            x += 1;
        }
        let y = digits(s, x, d);
        if y == x {
            return (BAD, x);
        }
        e = y;
    }
    ("LiteralNumber", e)
}

/// `i` is behind the opening `` ` `` or `}`
fn template(s: &str, start: usize, i: usize) -> Expect {
    let mut it = s[i..].char_indices();
    let (mut kind, mut end, mut inner) = (CUT, s.len(), None);
    while let Some((n, c)) = it.next() {
        match c {
            '`' => {
                kind = "TemplateClosed";
                inner = Some((i, i + n));
                end = i + n + 1;
                break;
            }
            '$' if s[i + n..].starts_with("${") => {
                kind = "TemplateOpen";
                inner = Some((i, i + n));
                end = i + n + 2;
                break;
            }
            '\\' => {
                it.next();
            }
            _ => {}
        }
    }
    Expect { kind, start, end, inner, asi: "" }
}

/// `i` is behind the opening `/`
fn regex(s: &str, start: usize) -> (&'static str, usize) {
    let mut class = false;
    let mut it = s[start + 1..].char_indices();
    while let Some((n, c)) = it.next() {
        match c {
            '\n' | '\r' => return (BAD, 0),
            '\\' => {
                if let Some((_, '\n' | '\r')) = it.next() {
                    return (BAD, 0);
                }
            }
            '[' => class = true,
            ']' => class = false,
            '/' if !class => {
                let e = start + 1 + n + 1;
                return ("LiteralRegEx", digits(s, e, |c| "gimuy".contains(c)));
            }
            _ => {}
        }
    }
    (CUT, s.len())
}

/// The token from `i` on
fn next(s: &str, i: usize) -> Expect {
    let (i, nl, open) = skip(s, i);
    let mut x = Expect { kind: BAD, start: i, end: i + 1, inner: None, asi: if nl { "Implicit" } else { "No" } };
    if open {
        x.kind = CUT;
        x.end = s.len();
        return x;
    }
    let Some(c) = at(s, i) else {
        x.kind = "EndOfProgram";
        x.end = i;
        x.asi = "Implicit";
        return x;
    };
    x.end = i + c.len_utf8();
    if ident_start(c) {
        x.end = ident_end(s, i);
        x.kind = WORDS.iter().find(|w| w.0 == &s[i..x.end]).map_or("Identifier", |w| w.1);
    } else if c.is_ascii_digit() || (c == '.' && at(s, i + 1).map_or(false, |d| d.is_ascii_digit())) {
        let (k, e) = number(s, i);
        x.kind = k;
        x.end = e;
    } else if c == '"' || c == '\'' {
        let mut it = s[i + 1..].char_indices();
        x.kind = CUT;
        x.end = s.len();
        while let Some((n, d)) = it.next() {
            match d {
                '\\' => {
                    if let Some((m, '\r')) = it.next() {
                        if s[i + 1 + m..].starts_with("\r\n") {
                            it.next();
                        }
                    }
                }
                '\n' | '\r' => {
                    x.kind = BAD;
                    break;
                }
                d if d == c => {
                    x.kind = "LiteralString";
                    x.end = i + 1 + n + 1;
                    break;
                }
                _ => {}
            }
        }
    } else if c == '`' {
        let asi = x.asi;
        x = template(s, i, i + 1);
        x.asi = asi;
    } else if let Some(p) = PUNCT.iter().find(|p| s[i..].starts_with(p.0)) {
        x.kind = p.1;
        x.end = i + p.0.len();
        match p.0 {
            ";" => x.asi = "Explicit",
            ")" | "}" => x.asi = "Implicit",
            _ => {}
        }
    } else if c == '.' {
        let (j, _, open) = skip(s, i + 1);
        if open {
            x.kind = CUT;
        } else {
            match at(s, j) {
                None => x.kind = CUT,
                Some(c) if ident_start(c) => {
                    x.kind = "Accessor";
                    x.end = ident_end(s, j);
                    x.inner = Some((j, x.end));
                }
                _ => {}
            }
        }
    }
    x
}

/// Tokens and trivia in any order
fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 40);
    let mut s = String::new();
    let gap = r.below(4);
    for _ in 0..n {
        match r.below(16) {
            0 | 1 => s.push_str(&synth::ident(r)),
            2 => s.push_str(&synth::number(r)),
            3 => s.push_str(&synth::binary(r)),
            4 => s.push_str(&synth::string(r)),
            5 => s.push_str(&synth::regex(r)),
            6 => {
                let q = synth::quasi(r);
                s.push_str(&format!("{}{}{}", r.pick(&["`", "}", "`", ""]), q, r.pick(&["`", "${", "`", ""])));
            }
            7..=9 => s.push_str(r.pick(PUNCT).0),
            10 | 11 => {
                let w = r.pick(WORDS).0;
                s.push_str(w);
                match r.below(10) {
                    0 => s.push(*r.pick(&['s', '1', '$', '_', '\u{e9}', '\u{10428}', '\\'])),
                    1 => {
                        s.pop();
                    }
                    _ => {}
                }
            }
            12 => s.push_str(r.pick(hostile::TOKENS)),
            13 => {
                s.push('.');
                s.push_str(*r.pick(&["", "", " ", "\n", "/*c*/", "//c\n", "/*\n*/\t"]));
                let w = r.pick(WORDS).0;
                s.push_str(w);
            }
            14 if r.chance(1, 60) => {
                // a long one
                let n = crate::gen::magnitude(r);
                let x = *r.pick(&["x", "*", " ", "\u{e9}", "\u{1F600}", "$", "0", "/"]);
                s.push_str(&match r.below(9) {
                    0 | 1 => format!("/*{}*/", x.replace('/', "//").repeat(n)),
                    2 => format!("a. /*{}*/ b", x.replace('/', "//").repeat(n)),
                    3 => format!("//{}\n", x.repeat(n)),
                    4 => format!("'{}'", x.repeat(n)),
                    5 => format!("`{}`", x.repeat(n)),
                    6 => r.pick(&[" ", "\n", "\t", "\r\n"]).repeat(n),
                    7 => synth::long_number(r),
                    _ => format!("_{}", r.pick(&["x", "$", "0", "if"]).repeat(n)),
                });
            }
            14 => s.push_str(*r.pick(&["/*a*/", "/**/", "/*\n*/", "/***/", "/*/ */", "//\n", "// x\r", "//\r\n", "\r\n", "\r", "\t", "\u{b}\u{c}", "/*\u{e9}\r*/"])),
            _ => s.push(hostile::random_char(r)),
        }
        if gap > 0 && r.chance(gap, 3) {
            s.push_str(*r.pick(&[" ", " ", "\n", "\r\n", "  ", "/**/"]));
        }
    }
    s
}

pub fn c15(ctx: &mut Ctx) -> Res {
    let src = match ctx.r.below(8) {
        0 | 1 => {
            let idx = ctx.idx;
            hostile::text(&mut ctx.r, idx, ctx.thorough).0
        }
        2 => hostile::valid(&mut ctx.r),
        _ => soup(&mut ctx.r),
    };
    current(&src);
    // a null byte inside of a comment, string, template or regular expression ends it early (see DESIGN.md)
    if src.contains('\0') {
        ctx.stats.count("with_null_byte", 1);
        return total(ctx, &src);
    }
    let arena = toolshed::Arena::new();
    let raw = std::ffi::CString::new(src.as_str()).unwrap();
    let mut lex = if ctx.idx % 3 == 1 {
        // a text that the caller keeps
        unsafe { Lexer::from_ptr(raw.as_ptr() as *const u8) }
    } else {
        Lexer::new(&arena, &src)
    };
    let mut from = 0;
    let mut before = None;
    let (mut steps, mut kinds) = (0u64, 0u64);
    loop {
        let x = next(&src, from);
        let got = (format!("{:?}", lex.token), lex.start() as usize, lex.end() as usize);
        steps += 1;
        if steps > 2 * src.len() as u64 + 8 {
            return Err(bad("no progress", format!("{} tokens from {} bytes", steps, src.len()), &*src));
        }
        let k = crate::rng::fnv(got.0.as_bytes());
        kinds = crate::rng::mix(kinds.rotate_left(5) ^ k);
        ctx.stats.seen("token_kinds", k);
        let fail = |what: &str, got: String| Err(bad(format!("{}: {}", what, x.kind), format!("token after byte {}: expected {:?} {:?}, got {}", from, x, src.get(x.start..x.end), got), &*src));
        if got.0 != x.kind {
            return fail("kind", format!("{:?}", got));
        }
        let asi = match lex.asi() {
            Asi::ExplicitSemicolon => "Explicit",
            Asi::ImplicitSemicolon => "Implicit",
            Asi::NoSemicolon => "No",
        };
        if x.kind == "EndOfProgram" {
            if asi != "Implicit" || got.2 != src.len() {
                return fail("end", format!("{:?} {}", got, asi));
            }
            // the end stays the end
            lex.consume();
            if format!("{:?}", lex.token) != "EndOfProgram" || lex.end() as usize != src.len() {
                return fail("after the end", format!("{:?}", lex.token));
            }
            break;
        }
        if x.kind == BAD || x.kind == CUT {
            ctx.stats.count("wrong_tokens", 1);
            // where a wrong token ends is not laid down, only that it makes sense
            if x.kind == BAD && got.1 != x.start || got.1 > got.2 || got.2 > src.len() || !src.is_char_boundary(got.1) || !src.is_char_boundary(got.2) || (got.2 <= from && x.kind == BAD) {
                return fail("span", format!("{:?}", got));
            }
            from = got.2;
            lex.consume();
            continue;
        }
        if (got.1, got.2) != (x.start, x.end) || lex.loc() != (x.start as u32, x.end as u32) {
            return fail("span", format!("{:?}", got));
        }
        if lex.token_as_str() != &src[x.start..x.end] {
            return fail("text", format!("{:?}", lex.token_as_str()));
        }
        if asi != x.asi {
            return fail("line end before the token", asi.into());
        }
        if let Some((a, b)) = x.inner {
            let text = if x.kind == "Accessor" { lex.accessor_as_str() } else { lex.quasi };
            if text != &src[a..b] {
                return fail("inner text", text.into());
            }
        }
        ctx.stats.count("tokens", 1);
        if let Err((what, e)) = operator(lex.token, x.kind, &src[x.start..x.end], &mut before) {
            return fail(&what, e);
        }
        from = x.end;
        // what the parser does where the grammar calls for it
        if matches!(x.kind, "OperatorDivision" | "OperatorDivideAssign") && ctx.r.chance(1, 2) {
            let text = lex.read_regular_expression();
            let (mut k, e) = regex(&src, x.start);
            // `/=`: the second character was read already, it may not open a class or escape
            if k == "LiteralRegEx" && e <= x.end {
                k = "";
            }
            let got = format!("{:?}", lex.token);
            if got != k && !k.is_empty() {
                return Err(bad(format!("regular expression: {}", k), format!("at {}: expected {}, got {}", x.start, k, got), &*src));
            }
            if k == "LiteralRegEx" {
                if text != &src[x.start..e] || lex.end() as usize != e || lex.start() as usize != x.start {
                    return Err(bad("regular expression text", format!("at {}: expected {:?}, got {:?}", x.start, &src[x.start..e], text), &*src));
                }
                ctx.stats.count("regular_expressions", 1);
            }
            from = lex.end() as usize;
            if from > src.len() || !src.is_char_boundary(from) {
                return Err(bad("regular expression end", format!("{} of {}", from, src.len()), &*src));
            }
        } else if x.kind == "BraceClose" && ctx.r.chance(1, 2) {
            lex.read_template_kind();
            let t = template(&src, x.start, x.end);
            let got = format!("{:?}", lex.token);
            if got != t.kind {
                return Err(bad(format!("template: {}", t.kind), format!("at {}: expected {}, got {}", x.start, t.kind, got), &*src));
            }
            if let Some((a, b)) = t.inner {
                if lex.quasi != &src[a..b] || lex.end() as usize != t.end {
                    return Err(bad("template text", format!("at {}: expected {:?}, got {:?}", x.start, &src[a..b], lex.quasi), &*src));
                }
                ctx.stats.count("template_parts", 1);
            }
            from = lex.end() as usize;
            if from > src.len() || !src.is_char_boundary(from) {
                return Err(bad("template end", format!("{} of {}", from, src.len()), &*src));
            }
        }
        lex.consume();
    }
    ctx.stats.seen("token_sequences", kinds);
    if steps > 2 {
        ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
    }
    if ctx.idx % 997 == 500 {
        ctx.stats.sample(&src);
    }
    Ok(())
}

/// What the operator table says of an operator token, by its spelling. Of two binary operators the
/// one that binds tighter must have more binding power; `before` is the last one met.
fn operator(token: ratel::lexer::Token, kind: &str, text: &str, before: &mut Option<(u8, u8, String)>) -> Result<(), (String, String)> {
    let op = match (OperatorKind::from_token(token), kind.starts_with("Operator")) {
        (None, false) => return Ok(()),
        (Some(op), true) => op,
        (op, _) => return Err(("operator".into(), format!("{:?} for {:?}", op, text))),
    };
    if op.as_str() != text || format!("Operator{:?}", op) != kind {
        return Err(("operator".into(), format!("{:?}, {:?}", op, op.as_str())));
    }
    let prefix = ["!", "~", "typeof", "void", "delete", "new", "...", "++", "--", "+", "-"].contains(&text);
    let assignment = text != "=>" && text.ends_with('=') && !["==", "!=", "===", "!==", "<=", ">="].contains(&text);
    let binary = print::binop_prec(text);
    let in_table = print::binop_prec(text) != print::binop_prec("");
    let infix = assignment || in_table || ["=>", "?"].contains(&text);
    let category = match text {
        "+" | "++" => "Plus",
        "-" | "--" => "Minus",
        w if w.as_bytes()[0].is_ascii_lowercase() => "Word",
        _ => "Safe",
    };
    let got = (op.prefix(), op.infix(), op.assignment(), format!("{:?}", op.category()));
    let exp = (prefix, infix, assignment, category.to_string());
    if got != exp {
        return Err(("operator table".into(), format!("prefix, infix, assignment, category of {:?} are {:?} instead of {:?}", text, got, exp)));
    }
    let rank = match text {
        "**" => print::binop_prec("*"),
        "?" => 2,
        _ if assignment => 1,
        _ if in_table => binary,
        _ => return Ok(()),
    };
    let power = op.binding_power();
    if let Some((r, p, t)) = before {
        if text != "**" && t != "**" && rank.cmp(r) != power.cmp(p) || (rank < *r) && (power >= *p) {
            return Err(("binding power".into(), format!("{:?} has {}, {:?} has {}", t, p, text, power)));
        }
    }
    *before = Some((rank, power, text.to_string()));
    Ok(())
}

/// Whatever the text: spans in order, on character boundaries, and an end.
fn total(ctx: &mut Ctx, src: &str) -> Res {
    let arena = toolshed::Arena::new();
    let mut lex = Lexer::new(&arena, src);
    let mut last = 0;
    for _ in 0..2 * src.len() + 8 {
        let (a, b) = (lex.start() as usize, lex.end() as usize);
        if a > b || b > src.len() || b < last || !src.is_char_boundary(a) || !src.is_char_boundary(b) {
            return Err(bad("span", format!("{}..{} after {}", a, b, last), src));
        }
        last = b;
        if format!("{:?}", lex.token) == "EndOfProgram" {
            ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
            return if b == src.len() { Ok(()) } else { Err(bad("end", format!("the program ends at {} of {}", b, src.len()), src)) };
        }
        lex.consume();
    }
    Err(bad("no progress", "no end of the program", src))
}
