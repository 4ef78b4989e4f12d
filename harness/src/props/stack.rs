//! C01: the stack. A text that repeats a construct must not need more stack for it, a text nested a few hundred
//! levels deep must fit in the stack of an ordinary thread.
use super::linear::{repeat, FAMILIES};
use super::*;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

/// Runs in a process of its own: everything that can be done with the text, on a thread with that much stack.
pub fn child(family: usize, count: usize, kb: usize) {
    let src = match FAMILIES.get(family) {
        Some(f) => repeat(f, count),
        None => {
            let f = BALANCED[family - FAMILIES.len()];
            format!("{}{}{}{}{}", f.0, f.1.repeat(count), f.2, f.3.repeat(count), f.4)
        }
    };
    let ok = std::thread::Builder::new()
        .stack_size(kb << 10)
        .spawn(move || match ratel::parse(&src) {
            Ok(_) => super::total::battery(&src).0,
            Err(e) => {
                assert!(family < FAMILIES.len(), "a valid program is rejected");
                e.len()
            }
        })
        .unwrap()
        .join()
        .is_ok();
    std::process::exit(if ok { 0 } else { 3 });
}

/// Valid programs: (before, opening, middle, closing, after)
const BALANCED: &[(&str, &str, &str, &str, &str)] = &[
    ("", "(", "a", ")", ";"),
    ("", "[", "a", "]", ";"),
    ("x=", "{a:", "b", "}", ";"),
    ("", "f(", "a", ")", ";"),
    ("", "new f(", "a", ")", ";"),
    ("a", "[b", "", "]", ";"),
    ("x=", "`a${", "b", "}c`", ";"),
    ("", "{", "a;", "}", ""),
    ("", "if(a){", "b", "}else{c}", ""),
    ("", "for(;;){", "b", "}", ""),
    ("", "do{", "b", "}while(c);", ""),
    ("", "try{", "b", "}catch(c){}", ""),
    ("", "try{}finally{", "b", "}", ""),
    ("", "switch(a){case b:", "c", "}", ""),
    ("", "function f(a){", "b", "}", ""),
    ("x=", "function(){return ", "b", "}", ";"),
    ("x=", "(a)=>{return ", "b", "}", ";"),
    ("x=", "a=>(", "b", ")", ";"),
    ("x=", "class extends(", "b", "){}", ";"),
    ("x=", "class{m(){return ", "b", "}}", ";"),
    ("x=", "class{a=", "b", ";}", ";"),
    ("x=", "{[", "b", "]:c}", ";"),
    ("x=", "(a?b:", "b", ")", ";"),
    ("x=", "(a,", "b", ")", ";"),
    ("x=", "(a=", "b", ")", ";"),
    ("x=", "(a**", "b", ")", ";"),
    ("x=", "(a+", "b", ")", ";"),
    ("x=", "-(", "b", ")", ";"),
    ("var ", "[", "b", "]", "=c;"),
    ("var ", "{a:", "b", "}", "=c;"),
    ("x=", "(function(a=", "b", "){})", ";"),
    ("x=", "((a=", "b", ")=>c)", ";"),
    ("x=", "[...", "b", "]", ";"),
    ("x=", "a[", "b", "]", ";"),
    ("x=", "a``[", "b", "]", ";"),
];

/// (times repeated, stack in KB): wide texts, or nested ones of moderate depth
const WIDE: (usize, usize) = (200_000, 1_024);
const MODERATE: (usize, usize) = (256, 2_048);
/// nested far deeper than any stack can hold
const DEEP: (usize, usize) = (200_000, 8_192);

pub fn c01stack(ctx: &mut Ctx) -> Res {
    let i = ctx.idx as usize;
    let n = FAMILIES.len();
    let (id, count, kb, name, what) = if i < 2 * n {
        let f = FAMILIES[i % n];
        let (count, kb) = match (i < n, f.0.starts_with('<')) {
            (true, false) => WIDE,
            (true, true) => MODERATE,
            (false, true) => DEEP,
            (false, false) => return Ok(()),
        };
        let name = f.0.trim_start_matches('<').to_string();
        (i % n, count, kb, name.clone(), format!("{} {} times {} ({})", f.1, if f.2.is_empty() { &*name } else { f.2 }, f.3, name))
    } else if i < 2 * n + BALANCED.len() {
        let f = BALANCED[i - 2 * n];
        (i - n, MODERATE.0, MODERATE.1, f.1.to_string(), format!("{} {} times {} {} as often {}", f.0, f.1, f.2, f.3, f.4))
    } else {
        return Ok(());
    };
    let p = Command::new(std::env::current_exe().unwrap())
        .args(["stack", &id.to_string(), &count.to_string(), &kb.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .unwrap();
    let err = String::from_utf8_lossy(&p.stderr).to_string();
    ctx.stats.count("texts_on_a_small_stack", 1);
    ctx.stats.nontrivial(crate::rng::fnv(what.as_bytes()) ^ count as u64);
    if err.contains("overflowed its stack") {
        return Err(bad(
            format!("stack overflow: {} {}", count, name),
            format!("{} KB of stack do not suffice for a text of {} repetitions", kb, count),
            what,
        ));
    }
    match p.status.code() {
        Some(0) => Ok(()),
        // killed from outside: nothing to tell
        None if p.status.signal() == Some(9) => {
            ctx.stats.inconclusive += 1;
            Ok(())
        }
        _ => Err(bad(format!("ended early: {}", name), format!("the process ended with {:?}: {}", p.status, err), what)),
    }
}
