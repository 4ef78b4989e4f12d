//! C14: errors point at the text that is wrong.
use super::*;
use crate::hostile;
use crate::print::{Tok, TK};
use ratel::error::{Error, ParseError};

/// 1-based line and column (in characters) of a byte offset; lines end at LF
fn line_col(src: &str, at: usize) -> (usize, usize) {
    let (mut l, mut c) = (1, 1);
    for (i, ch) in src.char_indices() {
        if i >= at {
            break;
        }
        if ch == '\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    (l, c)
}

/// The message for the user: position in the header, right lines quoted, token underlined.
fn message(src: &str, e: &Error) -> Result<(), String> {
    let error = ParseError::UnexpectedToken { source: src.to_string(), start: e.start, end: e.end };
    let shown = format!("{}", error);
    if format!("{:?}", error) != shown {
        return Err(format!("Debug shows {:?}", error));
    }
    let debug = format!("Unexpected {:?}({}) at {}:{}", e.token, &src[e.start..e.end], e.start, e.end);
    if format!("{:?}", e) != debug {
        return Err(format!("the error shows as {:?}, expected {:?}", e, debug));
    }
    let (l, c) = line_col(src, e.start);
    let head = format!("Unexpected token at {}:{}\n\n", l, c);
    if !shown.starts_with(&head) {
        return Err(format!("the message starts {:?}, expected {:?}", shown.lines().next(), head));
    }
    let lines: Vec<&str> = src.split_inclusive('\n').map(|x| x.strip_suffix('\n').map_or(x, |x| x.strip_suffix('\r').unwrap_or(x))).collect();
    let body = &shown[head.len()..];
    // quoted lines: from two before to two after
    let mut expected: Vec<(usize, &str)> = vec![];
    for n in l.saturating_sub(2).max(1)..=(l + 2).min(lines.len()) {
        expected.push((n, lines[n - 1]));
    }
    let mut got = body;
    let mut column = None;
    for (n, text) in expected {
        let mark = if n == l { ">" } else { "" };
        // number, bar, the line
        let Some((row, rest)) = split_row(got, text) else {
            return Err(format!("line {} is not quoted as it is: {:?}", n, clip(got)));
        };
        let Some(num) = row.strip_suffix(" | ") else {
            return Err(format!("line {}: no bar in {:?}", n, row));
        };
        let numt = num.trim();
        let want = if mark.is_empty() { n.to_string() } else { format!("> {}", n) };
        if numt.split_whitespace().collect::<Vec<_>>().join(" ") != want {
            return Err(format!("line {} is numbered {:?}", n, num));
        }
        // one below the other
        if *column.get_or_insert(num.len()) != num.len() {
            return Err(format!("line {}: the bar is not below the one before", n));
        }
        got = rest;
        if n == l {
            let bar = row.chars().count();
            let carets = got.split('\n').next().unwrap_or("");
            let toklen = src[e.start..e.end].chars().count();
            let want = format!("{}{}", " ".repeat(bar - 2 + 2 + c - 1), "^".repeat(toklen));
            let norm = carets.replacen('|', " ", 1);
            if norm != want || carets.find('|') != Some(bar - 2) {
                return Err(format!("underlined {:?}, expected {:?}", carets, want));
            }
            got = &got[(carets.len() + 1).min(got.len())..];
        }
    }
    if !got.is_empty() {
        return Err(format!("the message goes on with {:?}", clip(got)));
    }
    Ok(())
}

/// `<prefix>text\n<rest>`: the prefix ends at the first bar
fn split_row<'a>(s: &'a str, text: &str) -> Option<(&'a str, &'a str)> {
    let bar = s.find(" | ")?;
    let (a, b) = s.split_at(bar + 3);
    let b = b.strip_prefix(text)?;
    Some((a, b.strip_prefix('\n')?))
}

pub fn check(src: &str, errors: &[Error], st: &mut Stats) -> Res {
    if errors.is_empty() {
        return Err(bad("no errors", "rejected without any error", src));
    }
    for (i, e) in errors.iter().enumerate() {
        if !(e.start <= e.end && e.end <= src.len()) {
            return Err(bad("span out of range", format!("{:?} in {} bytes", e, src.len()), src));
        }
        if !src.is_char_boundary(e.start) || !src.is_char_boundary(e.end) {
            return Err(bad("span inside a character", format!("{:?}", e), src));
        }
        if src[e.start..e.end] != *e.raw {
            return Err(bad("raw is not the text at the span", format!("{:?}, the text is {:?}", e, &src[e.start..e.end]), src));
        }
        // the whole of long messages is quadratic
        if i < 4 && (src.len() < 4096 || i == 0) {
            st.count("messages", 1);
            if let Err(m) = message(src, e) {
                return Err(bad(format!("message: {}", m.split(|c: char| c.is_ascii_digit() || c == '"').next().unwrap_or("")), m, src));
            }
        }
    }
    Ok(())
}

pub fn c14(ctx: &mut Ctx) -> Res {
    match ctx.r.below(4) {
        0 => {
            let idx = if ctx.r.chance(1, 2) { ctx.idx } else { u64::MAX };
            let (src, _) = hostile::text(&mut ctx.r, idx, ctx.thorough);
            current(&src);
            if let Err(e) = ratel::parse(&src) {
                ctx.stats.count("rejected_hostile", 1);
                ctx.stats.count("errors", e.len() as u64);
                check(&src, &e, &mut ctx.stats)?;
                ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
                for x in e.iter().take(50) {
                    ctx.stats.seen("error_tokens", x.token as u64);
                }
            }
            Ok(())
        }
        k => {
            // a valid program with a character no program has: the first error is there
            let tree = gen::program(&mut ctx.r, ctx.idx, true);
            let st = style(&mut ctx.r);
            let lay = *ctx.r.pick(&[Layout::Tight, Layout::Spaced, Layout::WildNoAsi, Layout::Wild, Layout::Dense]);
            let p = print::print(&tree, st, lay, &mut ctx.r);
            let live: Vec<&Tok> = p.toks.iter().filter(|t| !t.dropped).collect();
            if live.is_empty() {
                return Ok(());
            }
            let i = ctx.r.below(live.len() + 1);
            let at = live.get(i).map_or(p.src.len(), |t| t.start as usize);
            // not into a comment at the end of the text
            if i == live.len() && p.src[live[i - 1].end as usize..].contains("//") {
                return Ok(());
            }
            let after_dot = i > 0 && live[i - 1].s == "." && live[i - 1].kind == TK::Punct;
            let (src, what) = if k == 1 {
                // a closing bracket of a kind that is not open here
                let mut open = vec![];
                for t in &live[..i] {
                    match (t.kind, t.s.as_str()) {
                        (TK::TplHead, _) => open.push('$'),
                        (TK::Punct, "(" | "[" | "{") => open.push(t.s.chars().next().unwrap()),
                        (TK::TplTail, _) | (TK::Punct, ")" | "]" | "}") => {
                            open.pop();
                        }
                        _ => {}
                    }
                }
                let fits: &[&str] = match open.last() {
                    Some('(') => &["]", "}"],
                    Some('[') => &[")", "}"],
                    Some('{') | Some('$') => &[")", "]"],
                    _ => &[")", "]", "}"],
                };
                (format!("{}{}{}", &p.src[..at], ctx.r.pick(fits), &p.src[at..]), "bracket")
            } else if k < 3 {
                let junk = *ctx.r.pick(&["@", "#", "\u{7f}", "@@", "# "]);
                (format!("{}{}{}", &p.src[..at], junk, &p.src[at..]), "junk")
            } else {
                (p.src[..at].to_string(), "cut")
            };
            current(&src);
            let e = match ratel::parse(&src) {
                Err(e) => e,
                Ok(_) if what == "cut" => {
                    ctx.stats.count("cut_still_valid", 1);
                    return Ok(());
                }
                Ok(_) => return Err(bad(format!("{} accepted", what), format!("{:?} at {} was accepted", &src[at..at + 1], at), &*src)),
            };
            check(&src, &e, &mut ctx.stats)?;
            ctx.stats.count(what, 1);
            ctx.stats.count("errors", e.len() as u64);
            let f = &e[0];
            ctx.stats.seen("error_tokens", f.token as u64);
            let prev = if i > 0 { crate::rng::fnv(live[i - 1].s.as_bytes()) } else { 0 };
            ctx.stats.seen("tokens_before_the_error", prev);
            ctx.stats.nontrivial(crate::rng::fnv(src.as_bytes()));
            if ctx.idx % 997 == 500 {
                ctx.stats.sample(&src);
            }
            let end = if what == "cut" { src.len() } else { at + 1 };
            let ok = if after_dot {
                f.start < end + 1 && f.end >= at && f.start as usize >= live[i - 1].start as usize
            } else {
                f.start == at && f.end == end
            };
            if !ok {
                return Err(bad(
                    format!("first error elsewhere: {}", what),
                    format!("the text is wrong at {}..{}, the first error is {:?}", at, end, f),
                    &*src,
                ));
            }
            Ok(())
        }
    }
}
