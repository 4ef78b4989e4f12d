//! Hostile texts: what a parser may be handed by anyone.
use crate::gen;
use crate::print::{self, Layout};
use crate::props::style;
use crate::rng::Rng;
use crate::synth;

/// Every token of the language and a few that are none
pub const TOKENS: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ",", ":", ".", "...", "=>", "?", "@", "#", "\\", "`", "${", "'", "\"", "/", "//", "/*", "*/", "<!--", "-->",
    "++", "--", "!", "~", "new", "delete", "void", "typeof", "**", "*", "%", "+", "-", "<<", ">>", ">>>", "<", "<=", ">", ">=", "instanceof", "in",
    "===", "!==", "==", "!=", "&", "^", "|", "&&", "||", "=", "+=", "-=", "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|=",
    "var", "let", "const", "break", "do", "case", "else", "catch", "export", "class", "extends", "return", "while", "finally", "super", "with",
    "continue", "for", "switch", "yield", "debugger", "function", "this", "default", "if", "throw", "import", "try", "await", "static",
    "enum", "implements", "package", "protected", "interface", "private", "public", "of", "as", "from", "get", "set", "async", "target", "constructor",
    "true", "false", "null", "undefined", "a", "b", "x", "$", "_", "\u{e9}", "\u{65e5}", "\u{1F600}", "\u{10428}", "0", "1", "0x", "0xF", "0b1", "0b", "0o7", "0o8", ".5", "5.", "1e", "1e5", "1e+",
    "\"s\"", "'s'", "'\\", "`q`", "`a${", "}b`", "/r/g", "/[/]/", "\n", "\r", "\r\n", " ", "\t", "\u{2028}", "\u{feff}", "\u{a0}", "\0", "\u{7f}", "\u{b}", "\u{c}", "??", "?.", "=>{", "({", "})", "[]", "{}", "()",
];

/// Characters for exhaustive short texts
pub const CHARS: &[char] = &[
    'a', 'i', 'f', 'n', 'e', 'x', 'b', 'o', 'u', '0', '1', '7', '9', '.', '+', '-', '*', '/', '%', '=', '!', '<', '>', '&', '|', '^', '~', '?', ':', ';', ',', '(', ')', '[', ']', '{', '}', '\'', '"', '`', '$', '_', '\\', '@', '#',
    ' ', '\n', '\r', '\t', '\0', '\u{1}', '\u{7f}', '\u{80}', '\u{e9}', '\u{65e5}', '\u{2028}', '\u{feff}', '\u{1F600}',
];

pub fn n_chars(len: u32) -> u64 {
    (CHARS.len() as u64).pow(len)
}

/// The n-th text of up to 3 characters, then of up to 3 tokens
pub fn exhaustive(mut n: u64) -> Option<String> {
    for len in 0..=3u32 {
        let c = n_chars(len);
        if n < c {
            let mut s = String::new();
            for _ in 0..len {
                s.push(CHARS[(n % CHARS.len() as u64) as usize]);
                n /= CHARS.len() as u64;
            }
            return Some(s);
        }
        n -= c;
    }
    for len in 1..=2u32 {
        let c = (TOKENS.len() as u64).pow(len);
        for sep in ["", " "] {
            if n < c {
                let mut v = vec![];
                for _ in 0..len {
                    v.push(TOKENS[(n % TOKENS.len() as u64) as usize]);
                    n /= TOKENS.len() as u64;
                }
                return Some(v.join(sep));
            }
            n -= c;
        }
    }
    None
}

pub fn exhaustive_count() -> u64 {
    let t = TOKENS.len() as u64;
    (0..=3).map(n_chars).sum::<u64>() + 2 * (t + t * t)
}

pub fn random_char(r: &mut Rng) -> char {
    match r.below(12) {
        0..=5 => *r.pick(CHARS),
        6 => (r.below(128) as u8) as char,
        7 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
        8 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
        9 => char::from_u32(r.range(0xe000, 0xffff) as u32).unwrap(),
        10 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
        _ => *r.pick(&['\u{2028}', '\u{2029}', '\u{feff}', '\u{a0}', '\u{200b}', '\u{200d}', '\u{fffd}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
    }
}

fn cut(s: &str, r: &mut Rng) -> usize {
    let mut i = r.range(0, s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A valid program
pub fn valid(r: &mut Rng) -> String {
    let idx = if r.chance(1, 2) { r.below(gen::pair_count() + gen::stmt_pair_count()) as u64 } else { r.next() >> 20 };
    let tree = gen::program(r, idx, false);
    let st = style(r);
    let lay = *r.pick(&[Layout::Tight, Layout::Spaced, Layout::Wild, Layout::Wild, Layout::Dense]);
    print::print(&tree, st, lay, r).src
}

pub fn token(r: &mut Rng) -> String {
    match r.below(12) {
        0 => synth::ident(r),
        1 => synth::number(r),
        2 => synth::string(r),
        3 => synth::regex(r),
        4 => format!("`{}`", synth::quasi(r)),
        _ => r.pick(TOKENS).to_string(),
    }
}

/// Bounded nesting: the parser is recursive, depth is bounded by the stack.
pub fn nested(r: &mut Rng, depth: usize) -> String {
    const OPEN: &[(&str, &str)] = &[
        ("(", ")"), ("[", "]"), ("{", "}"), ("a(", ")"), ("a[", "]"), ("{a:", "}"), ("({a:", "})"), ("`${", "}`"), ("function(){", "}"), ("if(a){", "}"), ("if(a)", ""), ("if(a){}else ", ""),
        ("while(a)", ""), ("for(;;)", ""), ("do ", " while(a)"), ("a=>", ""), ("(a)=>{", "}"), ("class{a(){", "}}"), ("(class{[", "](){}})"), ("new ", ""), ("!", ""), ("a+", ""), ("a**", ""), ("a?", ":b"), ("a?b:", ""),
        ("a=", ""), ("...", ""), ("switch(a){case ", ":}"), ("switch(a){default:", "}"), ("try{", "}finally{}"), ("a:", ""), ("var a=", ""), ("var {a:", "}=b"), ("var [", "]=b"), ("return ", ""), ("throw ", ""), ("(a=", ")=>b"),
        ("function f(a=", "){}"), ("a,", ""), ("typeof ", ""), ("({[", "]:b})"), ("a.b", ""), ("/*", ""), ("let ", ""), ("class A extends ", "{}"),
    ];
    let same = r.chance(2, 3);
    let first = *r.pick(OPEN);
    let mut close: Vec<&str> = vec![];
    let mut s = String::new();
    let d = r.range(1, depth);
    for _ in 0..d {
        let o = if same { first } else { *r.pick(OPEN) };
        s.push_str(o.0);
        close.push(o.1);
    }
    s.push_str(*r.pick(&["", "a", "1", "b;", "'"]));
    let keep = if r.chance(1, 2) { d } else { r.range(0, d) };
    for c in close.iter().rev().take(keep) {
        s.push_str(c);
    }
    if r.chance(1, 8) {
        s.push_str(r.pick(OPEN).1);
    }
    s
}

pub fn mutate(s: &mut String, r: &mut Rng) {
    for _ in 0..r.range(1, 4) {
        match r.below(8) {
            0 => {
                let i = cut(s, r);
                s.truncate(i);
            }
            1 | 2 => {
                let i = cut(s, r);
                let t = if r.chance(1, 2) { token(r) } else { random_char(r).to_string() };
                s.insert_str(i, &t);
            }
            3 | 4 => {
                // remove a few characters
                let a = cut(s, r);
                let mut e = (a + r.range(1, 6)).min(s.len());
                while !s.is_char_boundary(e) {
                    e += 1;
                }
                s.replace_range(a..e, "");
            }
            5 => {
                // one character becomes another
                let a = cut(s, r);
                if let Some(c) = s[a..].chars().next() {
                    let n = random_char(r).to_string();
                    s.replace_range(a..a + c.len_utf8(), &n);
                }
            }
            6 => {
                // repeat a piece elsewhere
                let (mut a, mut b) = (cut(s, r), cut(s, r));
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                while b - a > 40 || !s.is_char_boundary(b) {
                    b -= 1;
                }
                let piece = s[a..b].to_string();
                let i = cut(s, r);
                s.insert_str(i, &piece);
            }
            _ => {
                let i = cut(s, r);
                let t = s.split_off(i);
                *s = t + s;
            }
        }
    }
}

pub fn text(r: &mut Rng, idx: u64, thorough: bool) -> (String, &'static str) {
    let (mut s, class) = inner(r, idx, thorough);
    if class != "exhaustive_short" && r.chance(1, 16) {
        // an odd character right at an end
        for _ in 0..r.range(1, 3) {
            let c = if r.chance(1, 2) { *r.pick(&['\0', '\0', '\u{feff}', '\r', '\u{1a}', '\\', '\u{2028}', '/', '\u{10ffff}']) } else { random_char(r) };
            if r.chance(1, 3) {
                s.insert(0, c);
            } else {
                s.push(c);
            }
        }
        return (s, "odd_ends");
    }
    (s, class)
}

fn inner(r: &mut Rng, idx: u64, thorough: bool) -> (String, &'static str) {
    if idx % 2 == 0 {
        if let Some(s) = exhaustive(idx / 2) {
            return (s, "exhaustive_short");
        }
    }
    match r.below(20) {
        0 => {
            let n = r.range(0, 60);
            let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            (String::from_utf8_lossy(&b).into_owned(), "random_bytes")
        }
        1 | 2 => {
            let n = r.range(0, 30);
            ((0..n).map(|_| random_char(r)).collect(), "random_chars")
        }
        3..=7 => {
            let most = if r.chance(1, 20) { 300 } else { 20 };
            let n = r.range(1, most);
            let mut s = String::new();
            let sep = r.below(3);
            for _ in 0..n {
                s.push_str(&token(r));
                if sep == 1 || (sep == 2 && r.chance(1, 2)) {
                    s.push(*r.pick(&[' ', ' ', '\n']));
                }
            }
            (s, "token_soup")
        }
        8..=13 => {
            let mut s = valid(r);
            mutate(&mut s, r);
            (s, "mutated_program")
        }
        14 => (valid(r), "valid_program"),
        15 => {
            // every way to cut a program short
            let s = valid(r);
            let i = cut(&s, r);
            (s[..i].to_string(), "truncated_program")
        }
        16 | 17 => {
            let depth = if r.chance(1, 10) { 200 } else { 12 };
            (nested(r, depth), "nested")
        }
        18 => {
            // repetition: long flat texts
            let t = token(r);
            let u = if r.chance(1, 2) { token(r) } else { String::new() };
            let n = if r.chance(1, 20) { if thorough { 60_000 } else { 8_000 } } else { r.range(1, 200) };
            // prefix operators and the like nest: keep the depth within what the stack takes
            let n = n.min(200_000 / (t.len() + u.len()).max(1)).min(4_000.max(if thorough { 20_000 } else { 0 }));
            ((0..n).map(|_| format!("{}{}", t, u)).collect(), "repeated")
        }
        _ => {
            // around the size of an arena page
            let pad = 65_536 - 40 + r.below(80);
            let mut s = String::new();
            let unit = *r.pick(&["a;", " ", "\n", "//c\n", "'s';", "\u{e9};", "/**/", "1,"]);
            while s.len() + unit.len() <= pad {
                s.push_str(unit);
            }
            let t = valid(r);
            s.push_str(&t);
            if r.chance(1, 3) {
                let i = cut(&s, r).max(pad - 20);
                let mut i = i.min(s.len());
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
            }
            (s, "page_sized")
        }
    }
}
