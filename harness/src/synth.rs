//! Random spellings of single tokens (identifiers, numbers, strings, regular expressions, template
//! text), all legal ECMAScript. Values are drawn per occurrence, so lexical code sees far more than a
//! fixed pool.
use crate::rng::Rng;

pub const RESERVED: &[&str] = &[
    "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else",
    "enum", "export", "extends", "false", "finally", "for", "function", "if", "implements", "import", "in", "instanceof",
    "interface", "let", "new", "null", "package", "private", "protected", "public", "return", "static", "super", "switch",
    "this", "throw", "true", "try", "typeof", "undefined", "var", "void", "while", "with", "yield", "eval", "arguments", "async", "of",
];

pub const UNI: &[char] = &['\u{e9}', '\u{105}', '\u{65e5}', '\u{3b1}', '\u{df}', '\u{10428}', '\u{416}', '\u{5d0}', '\u{627}', '\u{3042}', '\u{ac00}', '\u{2118}'];

fn start_char(r: &mut Rng) -> char {
    match r.below(12) {
        0 => '$',
        1 => '_',
        2 => *r.pick(&UNI[..11]),
        3 | 4 => (b'A' + r.below(26) as u8) as char,
        _ => (b'a' + r.below(26) as u8) as char,
    }
}
fn part_char(r: &mut Rng) -> char {
    if r.chance(1, 4) {
        (b'0' + r.below(10) as u8) as char
    } else {
        start_char(r)
    }
}

/// Any IdentifierName that is not a reserved (or contextually special) word.
pub fn ident(r: &mut Rng) -> String {
    loop {
        let mut s = String::new();
        match r.below(10) {
            0..=2 => {
                // proper prefix of a keyword, possibly continued differently
                let w = *r.pick(RESERVED);
                let n = r.range(1, w.len());
                s.push_str(&w[..n]);
                if r.chance(2, 3) {
                    s.push(part_char(r));
                }
            }
            3 | 4 => {
                // keyword with something after it
                s.push_str(*r.pick(RESERVED));
                for _ in 0..r.range(1, 3) {
                    s.push(part_char(r));
                }
            }
            5 => {
                // one changed letter
                let w = *r.pick(RESERVED);
                let i = r.below(w.len());
                for (j, c) in w.chars().enumerate() {
                    s.push(if i == j { start_char(r) } else { c });
                }
            }
            6 if r.chance(1, 6) => {
                s.push(start_char(r));
                for _ in 0..r.range(20, 400) {
                    s.push(part_char(r));
                }
            }
            _ => {
                s.push(start_char(r));
                for _ in 0..r.below(10) {
                    s.push(part_char(r));
                }
            }
        }
        if !RESERVED.contains(&s.as_str()) && !["set", "get"].contains(&s.as_str()) {
            return s;
        }
    }
}

fn digits(r: &mut Rng, lo: usize, hi: usize) -> String {
    (0..r.range(lo, hi)).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

/// A number of many digits
pub fn long_number(r: &mut Rng) -> String {
    let hi = *r.pick(&[20, 70, 260, 400, 1100]);
    let n = r.range(1, hi);
    let (prefix, radix) = *r.pick(&[("0x", 16), ("0X", 16), ("0o", 8), ("0b", 2), ("1", 10), ("0.", 10)]);
    // ties and what is next to them
    let style = r.below(4);
    let d = |r: &mut Rng, i: usize| -> char {
        let v = match style {
            0 => 0,
            1 if i == 0 || i + 1 == n => 1,
            1 => 0,
            2 => radix - 1,
            _ => r.below(radix),
        };
        std::char::from_digit(v as u32, 16).unwrap()
    };
    format!("{}{}", prefix, (0..n).map(|i| d(r, i)).collect::<String>())
}

pub fn number(r: &mut Rng) -> String {
    if r.chance(1, 200) {
        return loop {
            let s = long_number(r);
            if !s.starts_with("0b") {
                break s;
            }
        };
    }
    match r.below(10) {
        0 | 1 => {
            let n = r.range(1, 16);
            format!("0{}{}", r.pick(&['x', 'X']), (0..n).map(|_| *r.pick(&b"0123456789abcdefABCDEF"[..]) as char).collect::<String>())
        }
        2 => {
            let n = r.range(1, 20);
            format!("0{}{}", r.pick(&['o', 'O']), (0..n).map(|_| (b'0' + r.below(8) as u8) as char).collect::<String>())
        }
        k => {
            let mut s = match r.below(5) {
                0 => "0".to_string(),
                1 => (b'1' + r.below(9) as u8).to_string().chars().take(1).collect(),
                _ => {
                    let mut s = ((b'1' + r.below(9) as u8) as char).to_string();
                    let hi = if r.chance(1, 10) { 30 } else { 9 };
                    s.push_str(&digits(r, 0, hi));
                    s
                }
            };
            if k >= 6 {
                if r.chance(1, 4) {
                    s.clear();
                    s.push('.');
                    s.push_str(&digits(r, 1, 8));
                } else {
                    s.push('.');
                    s.push_str(&digits(r, 0, 8));
                }
            }
            if k % 3 == 0 {
                s.push(*r.pick(&['e', 'E']));
                s.push_str(*r.pick(&["", "+", "-"]));
                let e = r.below(300);
                s.push_str(&e.to_string());
            }
            s
        }
    }
}

pub fn binary(r: &mut Rng) -> String {
    let hi = if r.chance(1, 8) { 64 } else { 12 };
    let n = r.range(1, hi);
    format!("0{}{}", r.pick(&['b', 'B']), (0..n).map(|_| if r.chance(1, 2) { '1' } else { '0' }).collect::<String>())
}

const ESC: &[&str] = &["\\n", "\\t", "\\r", "\\b", "\\v", "\\f", "\\\\", "\\'", "\\\"", "\\x41", "\\xfF", "\\u0041", "\\uD83D\\uDE00", "\\u{1F600}", "\\u{0}", "\\a", "\\`", "\\$", "\\/", "\\\u{e9}", "\\\n", "\\\r\n", "\\0"];

fn text_char(r: &mut Rng) -> char {
    match r.below(14) {
        0 => *r.pick(UNI),
        1 => *r.pick(&['\u{2028}', '\u{2029}', '\u{1F600}', '\u{a0}', '\u{feff}', '\u{7f}', '\u{80}', '\u{ffff}', '\u{1}', '\t', '\u{b}', '\u{200b}']),
        2 => *r.pick(&['/', '*', '{', '}', '(', ')', '[', ']', ';', '<', '>', '!', '-', '&', '#', '@', '%', '^', '|', '~', '?', ':', ',', '.', '=', '+']),
        _ => (0x20 + r.below(95) as u8) as char,
    }
}

pub fn string(r: &mut Rng) -> String {
    let q = if r.chance(1, 2) { '"' } else { '\'' };
    let n = if r.chance(1, 40) { r.range(60, 600) } else { r.below(14) };
    let mut s = String::new();
    s.push(q);
    let mut nul = false;
    for _ in 0..n {
        if r.chance(1, 6) {
            let e = *r.pick(ESC);
            s.push_str(e);
            nul = e == "\\0";
        } else {
            let c = text_char(r);
            if c == q || c == '\\' || (nul && c.is_ascii_digit()) {
                continue;
            }
            nul = false;
            s.push(c);
        }
    }
    s.push(q);
    s
}

/// Text of a template element: valid cooked value, no CR, no unescaped backtick, backslash or `${`.
pub fn quasi(r: &mut Rng) -> String {
    let n = if r.chance(1, 40) { r.range(60, 400) } else { r.below(12) };
    let mut s = String::new();
    let mut nul = false;
    let mut dollar = false;
    for _ in 0..n {
        if r.chance(1, 6) {
            let e = *r.pick(&ESC[..]);
            if e.contains('\r') {
                continue;
            }
            s.push_str(e);
            nul = e == "\\0";
            dollar = false;
        } else {
            let c = if r.chance(1, 8) { *r.pick(&['$', '{', '}', '\n']) } else { text_char(r) };
            if c == '`' || c == '\\' || (nul && c.is_ascii_digit()) {
                continue;
            }
            if c == '{' && dollar {
                continue;
            }
            nul = false;
            dollar = c == '$';
            s.push(c);
        }
    }
    s
}

pub fn regex(r: &mut Rng) -> String {
    let mut s = String::from("/");
    let hi = if r.chance(1, 30) { 80 } else { 7 };
    let n = r.range(1, hi);
    for i in 0..n {
        match r.below(12) {
            0 => s.push_str(*r.pick(&["\\/", "\\\\", "\\d", "\\w", "\\.", "\\*", "\\[", "\\]", "\\u0041", "\\x41", "\\n", "\\("])),
            1 => s.push_str(*r.pick(&["[/]", "[^\\]]", "[a-z/]", "[\\\\]", "[[]", "[\\/]", "[\"']", "[`]", "[*]", "[//]", "[()]"])),
            2 => s.push_str(*r.pick(&["(a)", "(?:/)", "(?=x)", "(?!y)", "(\\/|b)"].map(|x| if x == "(?:/)" { "(?:x)" } else { x }).as_slice())),
            3 => s.push_str(*r.pick(&["a*", "b+", "c?", "d{2}", "e{1,3}", "f*?"])),
            4 if i > 0 => s.push('|'),
            5 => s.push_str(*r.pick(&["^", "$", ".", "=", ",", ";", "'", "\"", "`", "#", " ", "<!--", "-->"])),
            6 => s.push(*r.pick(&UNI[..])),
            _ => s.push(*r.pick(&b"abcdefghijklmnopqrstuvwxyz0123456789_-=!:,;<>&%@~"[..]) as char),
        }
    }
    s.push('/');
    let mut fl = *b"gimuy";
    for i in (1..5).rev() {
        let j = r.below(i + 1);
        fl.swap(i, j);
    }
    let k = r.weighted(&[5, 4, 2, 1, 1, 1]);
    for f in &fl[..k] {
        s.push(*f as char);
    }
    s
}

/// Text of a comment on one line, without the end of a block comment
pub fn comment(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 9) {
        match r.below(4) {
            0 => s.push('*'),
            1 => s.push('/'),
            _ => s.push(text_char(r)),
        }
    }
    let s = s.replace(['\u{2028}', '\u{2029}'], "");
    let mut o = String::new();
    for c in s.chars() {
        if c == '/' && o.ends_with('*') {
            o.push(' ');
        }
        o.push(c);
    }
    o
}
