//! Generator of random, early-error-free ECMAScript programs inside the supported subset, as model
//! trees. It never looks at the code under test.
use crate::rng::Rng;
use crate::synth;
use crate::tree::*;
use std::collections::HashSet;

pub const NAMES: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z", "i", "j", "k", "n", "foo", "bar", "baz", "qux",
    "breaker", "brea", "constx", "cons", "continued", "cas", "cases", "catcher", "classy", "clas", "dox", "deleted",
    "defaults", "debuggers", "elsee", "els", "exported", "extendss", "enums", "enu", "finallyy", "fork", "fo",
    "functional", "falsey", "inn", "instanceoff", "interfaces", "iff", "important", "implementss", "lets",
    "le", "newt", "ne", "nulls", "packages", "publics", "protecteds", "privates", "returned", "supers", "switches",
    "statics", "typeofx", "thiss", "thrown", "tryy", "truee", "undefine", "vary", "voids", "whiles", "within",
    "yields", "$", "_", "$_", "_0", "a1", "A", "Zz", "as", "from", "get", "set", "\u{105}", "\u{e9}t\u{e9}", "\u{65e5}\u{672c}", "x\u{3b1}y",
    "o", "p", "q", "r", "s", "t", "u", "v", "w", "l", "m", "constructor", "target", "prototypes", "is\u{df}", "\u{10428}",
];

/// Property names after a dot or as a key may be any word.
pub const WORDS: &[&str] = &[
    "break", "do", "case", "else", "catch", "export", "class", "extends", "return", "while", "finally", "super", "with",
    "continue", "for", "switch", "yield", "debugger", "function", "this", "default", "if", "throw", "import", "try",
    "static", "new", "typeof", "void", "delete", "instanceof", "true", "false", "null", "undefined",
    "in", "var", "let", "const", "enum", "implements", "package", "protected", "interface", "private", "public",
];

pub const NUMS: &[&str] = &[
    "0", "1", "2", "10", "42", "255", "1000000", "4294967295", "4294967296", "9007199254740993", "123456789012345678901234567890",
    "0.5", "1.5", "3.14159", ".5", ".0", "5.", "0.", "1e3", "1E3", "1e+3", "1e-3", "1.5e10", ".5e1", "2.e2", "0e0", "1e300", "1e-300",
    "0x0", "0xF", "0xff", "0XAb", "0x7fffffff", "0xffffffff", "0xFFFFFFFFFFFF", "0o0", "0o17", "0O7", "0o777", "0o37777777777",
    "99999999999", "2147483647", "2147483648", "1.7976931348623157e308", "5e-324", "0.1", "100.001",
];
pub const BINS: &[&str] = &["0b0", "0b1", "0B10", "0b101010", "0b11111111111111111111111111111111", "0b1111111111111111111111111111111111111111"];
pub const REGEXES: &[&str] = &[
    "/a/", "/a/g", "/[/]/", "/[a-z]+/gi", "/\\//", "/\\d+\\.\\d*/m", "/(?:x|y)*?/", "/[\\]/]/", "/a{1,2}/y", "/^$/", "/\\[/",
    "/./u", "/[^\"']*/", "/\\u0041/", "/[*]/", "/\\*/", "/a|b|/gim", "/=/", "/a=b/", "/\u{e9}+/", "/[\u{65e5}]/u",
];
pub const STRS: &[&str] = &[
    "\"\"", "''", "\"a\"", "'b'", "\"use\"", "'it\"s'", "\"it's\"", "\"\\\"\"", "'\\''", "'\\\\'", "\"\\n\\t\\r\\0\"", "'\\x41'",
    "\"\\u0041\"", "'\\u{1F600}'", "\"\u{65e5}\u{672c}\"", "'\u{1F600}'", "'a\\\nb'", "\"// no\"", "'/* no */'", "\"`${x}`\"", "';'", "'{'",
    "'\u{2028}'", "\"\\\\\\\"\"", "'  '", "'\t'",
];
pub const QUASIS: &[&str] = &[
    "", "", "a", " b ", "$", "$$", "{", "}", "\\`", "\\${", "\\\\", "line\nbreak", "\u{65e5}\u{672c}", "\u{1F600}", "//x", "/*", "'", "\"", "\\n", "$x", "{}", "a$", "}${",
];

pub const BINOPS: &[&str] = &[
    "*", "/", "%", "**", "+", "-", "<<", ">>", ">>>", "<", "<=", ">", ">=", "instanceof", "in", "===", "!==", "==", "!=", "&", "^", "|", "&&", "||",
];
pub const ASSIGNOPS: &[&str] = &["=", "+=", "-=", "**=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|="];
pub const PREOPS: &[&str] = &["!", "~", "typeof", "void", "+", "-"];

#[derive(Clone)]
struct FnScope {
    vars: HashSet<String>,
    lexs: HashSet<String>,
    labels: Vec<(String, bool)>,
    loops: usize,
    breakables: usize,
    is_fn: bool,
    generatorish: bool,
}

impl FnScope {
    fn new(is_fn: bool) -> Self {
        FnScope {
            vars: HashSet::new(),
            lexs: HashSet::new(),
            labels: vec![],
            loops: 0,
            breakables: 0,
            is_fn,
            generatorish: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Profile {
    /// allow import declarations (then the program is a module)
    pub imports: bool,
    /// allow `import(x)` and `import.meta`
    pub import_calls: bool,
    /// restrict declared and used names to a small pool (scope collisions)
    pub few_names: bool,
    pub max_depth: usize,
}

impl Default for Profile {
    fn default() -> Self {
        Profile { imports: false, import_calls: false, few_names: false, max_depth: 9 }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub budget: isize,
    pub p: Profile,
    fns: Vec<FnScope>,
    /// names declared in the current block, per open block
    blocks: Vec<HashSet<String>>,
    fresh: usize,
    depth: usize,
}

pub fn is_assign(op: &str) -> bool {
    ASSIGNOPS.contains(&op)
}

/// Can the statement swallow a following `else`?
pub fn open_if(s: &T) -> bool {
    match s.k {
        K::If => s.c[2].k == K::Nil || open_if(&s.c[2]),
        K::While => open_if(&s.c[1]),
        K::For => open_if(&s.c[3]),
        K::ForIn | K::ForOf => open_if(&s.c[2]),
        K::Labeled => open_if(&s.c[0]),
        _ => false,
    }
}

const FEW: &[&str] = &["a", "b", "c", "d", "x", "y"];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, budget: usize, p: Profile) -> Self {
        Gen {
            r,
            budget: budget as isize,
            p,
            fns: vec![FnScope::new(false)],
            blocks: vec![HashSet::new()],
            fresh: 0,
            depth: 0,
        }
    }

    pub fn program(&mut self) -> T {
        let mut c = vec![];
        if self.p.imports {
            for _ in 0..self.r.range(1, 3) {
                c.push(self.import());
            }
        }
        let n = self.r.range(0, 6);
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            c.push(self.item());
        }
        t(K::Module, "", c)
    }

    // --------------------------------------------------------------- names

    fn use_name(&mut self) -> String {
        if self.p.few_names {
            return self.r.pick(FEW).to_string();
        }
        if self.r.chance(1, 2) {
            let i = self.r.below(19);
            return NAMES[i].to_string();
        }
        if self.r.chance(1, 4) {
            return synth::ident(self.r);
        }
        self.r.pick(NAMES).to_string()
    }

    fn num(&mut self) -> String {
        if self.r.chance(1, 2) { synth::number(self.r) } else { self.r.pick(NUMS).to_string() }
    }
    fn bin(&mut self) -> String {
        if self.r.chance(1, 2) { synth::binary(self.r) } else { self.r.pick(BINS).to_string() }
    }
    fn str(&mut self) -> String {
        if self.r.chance(1, 2) { synth::string(self.r) } else { self.r.pick(STRS).to_string() }
    }
    fn regex(&mut self) -> String {
        if self.r.chance(1, 2) { synth::regex(self.r) } else { self.r.pick(REGEXES).to_string() }
    }
    fn quasi(&mut self) -> String {
        if self.r.chance(1, 2) { synth::quasi(self.r) } else { self.r.pick(QUASIS).to_string() }
    }

    /// A list length: usually small, now and then long
    fn len(&mut self, ws: &[usize]) -> usize {
        if self.r.chance(1, 60) { self.r.range(5, 40) } else { self.r.weighted(ws) }
    }

    fn any_word(&mut self) -> String {
        if self.r.chance(1, 4) {
            self.r.pick(WORDS).to_string()
        } else {
            self.use_name()
        }
    }

    fn declare(&mut self, lexical: bool) -> String {
        for _ in 0..12 {
            let n = self.use_name();
            if self.try_declare(&n, lexical) {
                return n;
            }
        }
        loop {
            self.fresh += 1;
            let n = format!("v{}", self.fresh);
            if self.try_declare(&n, lexical) {
                return n;
            }
        }
    }

    fn try_declare(&mut self, n: &str, lexical: bool) -> bool {
        let b = self.blocks.last_mut().unwrap();
        let f = self.fns.last_mut().unwrap();
        if lexical {
            if f.vars.contains(n) || b.contains(n) {
                return false;
            }
            f.lexs.insert(n.to_string());
            b.insert(n.to_string());
        } else {
            if f.lexs.contains(n) {
                return false;
            }
            f.vars.insert(n.to_string());
        }
        true
    }

    fn name(&mut self, lexical: bool) -> T {
        leaf(K::Name, &self.declare(lexical))
    }

    // --------------------------------------------------------------- statements

    fn in_block<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        self.blocks.push(HashSet::new());
        let x = f(self);
        self.blocks.pop();
        x
    }

    fn block(&mut self) -> T {
        self.in_block(|g| g.block_here())
    }
    fn block_here(&mut self) -> T {
        let mut c = vec![];
        let n = self.r.weighted(&[3, 5, 4, 2, 1]);
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            c.push(self.item());
        }
        t(K::Block, "", c)
    }

    pub fn item(&mut self) -> T {
        match self.r.weighted(&[10, 3, 2, 1]) {
            0 => self.stmt(),
            1 => self.lexical_decl(),
            2 => self.fn_decl(),
            _ => self.class(true),
        }
    }

    fn lexical_decl(&mut self) -> T {
        self.budget -= 2;
        let is_const = self.r.chance(1, 2);
        let n = self.len(&[0, 6, 2, 1]).max(1);
        let mut c = vec![];
        for _ in 0..n {
            c.push(self.declarator(true, is_const));
        }
        t(K::Decl, if is_const { "const" } else { "let" }, c)
    }

    fn declarator(&mut self, lexical: bool, must_init: bool) -> T {
        // the initialiser is generated first so that a name can be used before it is declared
        let p = self.binding(lexical, 0);
        let need = must_init || !p.is(K::PatIdent);
        let init = if need || self.r.chance(2, 3) { self.assign() } else { nil() };
        t(K::Declarator, "", vec![p, init])
    }

    pub fn stmt(&mut self) -> T {
        self.budget -= 1;
        self.depth += 1;
        let deep = self.depth > self.p.max_depth || self.budget <= 0;
        let s = if deep {
            match self.r.below(4) {
                0 => leaf(K::Empty, ""),
                1 => leaf(K::Debugger, ""),
                _ => t(K::ExprStmt, "", vec![self.leaf_expr()]),
            }
        } else {
            self.stmt_inner()
        };
        self.depth -= 1;
        s
    }

    fn loop_body(&mut self) -> T {
        self.fns.last_mut().unwrap().loops += 1;
        self.fns.last_mut().unwrap().breakables += 1;
        let b = self.stmt();
        self.fns.last_mut().unwrap().loops -= 1;
        self.fns.last_mut().unwrap().breakables -= 1;
        b
    }

    fn stmt_inner(&mut self) -> T {
        let f = self.fns.last().unwrap();
        let (is_fn, loops, brk) = (f.is_fn, f.loops > 0, f.breakables > 0);
        let has_labels = !f.labels.is_empty();
        let loop_labels: Vec<String> = f.labels.iter().filter(|l| l.1).map(|l| l.0.clone()).collect();
        let all_labels: Vec<String> = f.labels.iter().map(|l| l.0.clone()).collect();
        let w = [
            24,                              // 0 expression
            6,                               // 1 var
            1,                               // 2 empty
            1,                               // 3 debugger
            5,                               // 4 if
            3,                               // 5 while
            3,                               // 6 do
            4,                               // 7 for
            3,                               // 8 for in
            3,                               // 9 for of
            3,                               // 10 try
            3,                               // 11 block
            2,                               // 12 labeled
            3,                               // 13 switch
            2,                               // 14 throw
            if is_fn { 5 } else { 0 },       // 15 return
            if brk { 3 } else { 0 },         // 16 break
            if loops { 3 } else { 0 },       // 17 continue
            if has_labels { 3 } else { 0 },  // 18 break label
            if !loop_labels.is_empty() && loops { 3 } else { 0 }, // 19 continue label
        ];
        match self.r.weighted(&w) {
            0 => {
                let e = if self.p.import_calls && self.r.chance(1, 3) { self.import_call() } else { self.expr() };
                t(K::ExprStmt, "", vec![e])
            }
            1 => {
                let n = self.len(&[0, 6, 2, 1]).max(1);
                let c = (0..n).map(|_| self.declarator(false, false)).collect();
                t(K::Decl, "var", c)
            }
            2 => leaf(K::Empty, ""),
            3 => leaf(K::Debugger, ""),
            4 => {
                let test = self.expr();
                let mut cons = self.stmt();
                let alt = if self.r.chance(1, 2) { self.stmt() } else { nil() };
                if !alt.is(K::Nil) && open_if(&cons) {
                    cons = t(K::Block, "", vec![cons]);
                }
                t(K::If, "", vec![test, cons, alt])
            }
            5 => {
                let e = self.expr();
                let b = self.loop_body();
                t(K::While, "", vec![e, b])
            }
            6 => {
                let b = self.loop_body();
                let e = self.expr();
                t(K::Do, "", vec![b, e])
            }
            7 => self.in_block(|g| {
                let init = match g.r.below(4) {
                    0 => nil(),
                    1 => {
                        let k = *g.r.pick(&["var", "let", "const"]);
                        let n = g.r.range(1, 2);
                        let mut c: Vec<T> = (0..n).map(|_| g.declarator(k != "var", k == "const")).collect();
                        if g.r.chance(1, 6) {
                            let d = c.last_mut().unwrap();
                            if !d.c[1].is(K::Nil) {
                                let mut e = g.in_somewhere();
                                if e.is(K::Seq) {
                                    e = e.c.swap_remove(0);
                                }
                                d.c[1] = e;
                            }
                        }
                        t(K::Decl, k, c)
                    }
                    // `in` needs parentheses here, wherever it stands
                    2 if g.r.chance(1, 3) => g.in_somewhere(),
                    _ => g.expr(),
                };
                let test = if g.r.chance(2, 3) { g.expr() } else { nil() };
                let upd = if g.r.chance(2, 3) { g.expr() } else { nil() };
                let b = g.loop_body();
                t(K::For, "", vec![init, test, upd, b])
            }),
            k @ 8 | k @ 9 => self.in_block(|g| {
                let left = match g.r.below(3) {
                    0 => g.simple_target(),
                    1 => {
                        if g.r.chance(1, 3) {
                            let p = g.assign_pattern(0);
                            p
                        } else {
                            g.simple_target()
                        }
                    }
                    _ => {
                        let k = *g.r.pick(&["var", "let", "const"]);
                        let p = g.binding(k != "var", 0);
                        t(K::Decl, k, vec![t(K::Declarator, "", vec![p, nil()])])
                    }
                };
                let right = if k == 8 { g.expr() } else { g.assign() };
                let b = g.loop_body();
                t(if k == 8 { K::ForIn } else { K::ForOf }, "", vec![left, right, b])
            }),
            10 => {
                let b = self.block();
                let which = self.r.below(3);
                let h = if which != 1 {
                    self.in_block(|g| {
                        let p = g.binding(true, 0);
                        // the body shares its declared names with the parameter (early errors)
                        let b = g.block_here();
                        t(K::Catch, "", vec![p, b])
                    })
                } else {
                    nil()
                };
                let f = if which != 0 { self.block() } else { nil() };
                t(K::Try, "", vec![b, h, f])
            }
            11 => self.block(),
            12 => {
                let mut l = self.use_name();
                while all_labels.contains(&l) {
                    self.fresh += 1;
                    l = format!("l{}", self.fresh);
                }
                let is_loop = self.r.chance(2, 3);
                let f = self.fns.last_mut().unwrap();
                f.labels.push((l.clone(), is_loop));
                let b = if is_loop {
                    self.budget -= 1;
                    let e = self.expr();
                    let b = self.loop_body();
                    t(K::While, "", vec![e, b])
                } else {
                    self.stmt()
                };
                self.fns.last_mut().unwrap().labels.pop();
                t(K::Labeled, &l, vec![b])
            }
            13 => {
                let d = self.expr();
                self.fns.last_mut().unwrap().breakables += 1;
                let n = self.r.below(4);
                let def = if self.r.chance(1, 2) { self.r.below(n.max(1)) } else { 99 };
                let mut c = vec![d];
                self.in_block(|g| {
                    for i in 0..n {
                        let test = if i == def { nil() } else { g.expr() };
                        let mut k = vec![test];
                        for _ in 0..g.r.below(3) {
                            k.push(g.item());
                        }
                        c.push(t(K::Case, "", k));
                    }
                });
                self.fns.last_mut().unwrap().breakables -= 1;
                t(K::Switch, "", c)
            }
            14 => t(K::Throw, "", vec![self.expr()]),
            15 => {
                let e = if self.r.chance(3, 4) { self.expr() } else { nil() };
                t(K::Return, "", vec![e])
            }
            16 => t(K::Break, "", vec![nil()]),
            17 => t(K::Continue, "", vec![nil()]),
            18 => {
                let l = self.r.pick(&all_labels).clone();
                t(K::Break, "", vec![leaf(K::Name, &l)])
            }
            _ => {
                let l = self.r.pick(&loop_labels).clone();
                t(K::Continue, "", vec![leaf(K::Name, &l)])
            }
        }
    }

    /// An expression with an `in` in some part of it
    fn in_somewhere(&mut self) -> T {
        let (a, b) = (self.leaf_expr(), self.leaf_expr());
        let mut e = t(K::Binary, "in", vec![a, b]);
        for _ in 0..self.r.range(1, 4) {
            let (x, y) = (self.leaf_expr(), self.leaf_expr());
            e = match self.r.below(16) {
                0 => t(K::Binary, "=", vec![leaf(K::Ident, "x"), e]),
                1 => t(K::Cond, "", vec![e, x, y]),
                2 => t(K::Cond, "", vec![x, e, y]),
                3 => t(K::Cond, "", vec![x, y, e]),
                4 => t(K::Arrow, "expr", vec![t(K::Params, "", vec![]), e]),
                5 if !e.is(K::Seq) => t(K::Seq, "", vec![e, x]),
                6 if !e.is(K::Seq) => t(K::Seq, "", vec![x, e]),
                7 | 8 => {
                    let op = *self.r.pick(&["||", "&&", "|", "==", "<", "instanceof", "+", "**", "in"]);
                    if op == "**" { t(K::Binary, op, vec![e, x]) } else { t(K::Binary, op, vec![x, e]) }
                }
                9 => {
                    let op = *self.r.pick(&["||", "&&", "|", "==", "<", "instanceof", "+", "in"]);
                    t(K::Binary, op, vec![e, x])
                }
                10 => t(K::Prefix, "!", vec![e]),
                11 => t(K::Call, "", vec![leaf(K::Ident, "f"), e]),
                12 => t(K::CMember, "", vec![leaf(K::Ident, "o"), e]),
                13 => t(K::Binary, "+=", vec![leaf(K::Ident, "x"), e]),
                14 => t(K::Member, "", vec![e, leaf(K::Name, "p")]),
                _ => t(K::Array, "", vec![e]),
            };
        }
        e
    }

    /// `import(x)` and `import.meta`, which only a statement may begin with
    fn import_call(&mut self) -> T {
        let i = leaf(K::Ident, "import");
        let mut e = if self.r.chance(1, 2) {
            let a = self.assign();
            t(K::Call, "", vec![i, a])
        } else {
            t(K::Member, "", vec![i, leaf(K::Name, "meta")])
        };
        for _ in 0..self.r.below(3) {
            e = match self.r.below(5) {
                0 => t(K::Member, "", vec![e, leaf(K::Name, "then")]),
                1 => {
                    let a = self.assign();
                    t(K::Call, "", vec![e, a])
                }
                2 => {
                    let a = self.expr();
                    t(K::CMember, "", vec![e, a])
                }
                3 => t(K::Tagged, "", vec![e, t(K::Template, "", vec![leaf(K::Quasi, "x")])]),
                _ => e,
            };
        }
        match self.r.below(6) {
            0 if matches!(e.k, K::Member | K::CMember) && !e.c[0].is(K::Ident) => {
                let a = self.assign();
                t(K::Binary, "=", vec![e, a])
            }
            1 => {
                let a = self.leaf_expr();
                t(K::Binary, "+", vec![e, a])
            }
            2 => {
                let (a, b) = (self.assign(), self.assign());
                t(K::Cond, "", vec![e, a, b])
            }
            3 => {
                let a = self.assign();
                t(K::Seq, "", vec![e, a])
            }
            _ => e,
        }
    }

    fn import(&mut self) -> T {
        const SRC: &[&str] = &["m", "./a.js", "lodash", "x y", "\u{65e5}", "a\\\\b", "../q", ""];
        let mut src = self.r.pick(SRC).to_string();
        if self.r.chance(1, 3) {
            // any string contents, written with a quote that does not occur in it
            let s = synth::string(self.r);
            let inner = &s[1..s.len() - 1];
            if !(inner.contains('"') && inner.contains('\'')) {
                src = inner.to_string();
            }
        }
        let mut c = vec![];
        let w = self.r.below(5);
        if w == 0 || w == 1 || w == 2 {
            let n = self.name(true);
            c.push(t(K::ImportDefault, "", vec![n]));
        }
        if w == 1 || w == 3 {
            for _ in 0..self.r.range(1, 3) {
                if self.r.chance(1, 2) {
                    let im = leaf(K::Name, &self.use_name());
                    let lo = self.name(true);
                    c.push(t(K::ImportSpec, "", vec![im, lo]));
                } else {
                    let lo = self.name(true);
                    c.push(t(K::ImportSpec, "", vec![lo.clone(), lo]));
                }
            }
        }
        if w == 2 || (w == 4 && self.r.chance(1, 2)) {
            let n = self.name(true);
            c.push(t(K::ImportNs, "", vec![n]));
        }
        t(K::Import, &src, c)
    }

    // --------------------------------------------------------------- functions, classes

    fn fn_decl(&mut self) -> T {
        self.budget -= 2;
        let n = self.name(true);
        let gen = if self.r.chance(1, 5) { "*" } else { "" };
        let (p, b) = self.fn_rest();
        t(K::FnDecl, gen, vec![n, p, b])
    }

    fn fn_rest(&mut self) -> (T, T) {
        self.fn_rest_n(None)
    }

    /// Parameters and body in a fresh function scope
    fn fn_rest_n(&mut self, arity: Option<usize>) -> (T, T) {
        self.fns.push(FnScope::new(true));
        self.blocks.push(HashSet::new());
        let n = match arity { Some(n) => n, None => self.len(&[3, 4, 3, 1]) };
        let mut ps = vec![];
        for i in 0..n {
            if arity.is_none() && i + 1 == n && self.r.chance(1, 6) {
                let nm = self.name(true);
                ps.push(t(K::PatRest, "", vec![nm]));
            } else {
                let b = self.binding(true, 0);
                if self.r.chance(1, 4) {
                    let d = self.assign();
                    ps.push(t(K::PatAssign, "", vec![b, d]));
                } else {
                    ps.push(b);
                }
            }
        }
        let b = self.block_here();
        self.blocks.pop();
        self.fns.pop();
        (t(K::Params, "", ps), b)
    }

    fn class(&mut self, decl: bool) -> T {
        self.budget -= 3;
        let n = if decl {
            self.name(true)
        } else if self.r.chance(1, 2) {
            leaf(K::Name, &self.use_name())
        } else {
            nil()
        };
        let ext = if self.r.chance(1, 3) { self.assign() } else { nil() };
        let mut c = vec![];
        let mut has_ctor = false;
        for _ in 0..self.r.below(4) {
            if self.budget <= 0 {
                break;
            }
            let st = if self.r.chance(1, 4) { "static " } else { "" };
            match self.r.below(6) {
                0 | 1 => {
                    let key = self.class_key();
                    let name = if key.is(K::KeyLit) { key.s.clone() } else { String::new() };
                    let mut kind = "method";
                    if st.is_empty() && name == "constructor" {
                        if has_ctor {
                            continue;
                        }
                        has_ctor = true;
                        kind = "constructor";
                    }
                    let m = self.method(None);
                    c.push(t(K::CMethod, &format!("{}{}", st, kind), vec![key, m]));
                }
                2 if !has_ctor => {
                    has_ctor = true;
                    let m = self.method(None);
                    c.push(t(K::CMethod, "constructor", vec![leaf(K::KeyLit, "constructor"), m]));
                }
                3 => {
                    let mut w = self.any_word();
                    if w == "constructor" || w == "static" {
                        w = "ctor".into();
                    }
                    let get = self.r.chance(1, 2);
                    let m = self.method(Some(if get { 0 } else { 1 }));
                    c.push(t(
                        K::CMethod,
                        &format!("{}{}", st, if get { "get" } else { "set" }),
                        vec![leaf(K::KeyLit, &w), m],
                    ));
                }
                _ => {
                    let mut key = self.class_key();
                    if key.is(K::KeyLit) && key.s == "constructor" {
                        key.s = "ctor".into();
                    }
                    self.fns.push(FnScope::new(false));
                    self.fns.last_mut().unwrap().generatorish = true;
                    let v = self.assign();
                    self.fns.pop();
                    c.push(t(K::CField, if st.is_empty() { "" } else { "static" }, vec![key, v]));
                }
            }
        }
        t(
            if decl { K::ClassDecl } else { K::ClassExpr },
            "",
            vec![n, ext, t(K::ClassBody, "", c)],
        )
    }

    fn method(&mut self, arity: Option<usize>) -> T {
        let (p, b) = self.fn_rest_n(arity);
        t(K::Method, "", vec![nil(), p, b])
    }

    fn class_key(&mut self) -> T {
        match self.r.weighted(&[8, 2, 1, 2]) {
            0 => {
                let mut w = self.any_word();
                if w == "static" {
                    w = "statics".into();
                }
                leaf(K::KeyLit, &w)
            }
            1 => leaf(K::KeyLit, &self.num()),
            2 => leaf(K::KeyBin, &self.bin()),
            _ => {
                let e = self.assign();
                t(K::KeyComp, "", vec![e])
            }
        }
    }

    fn obj_key(&mut self) -> T {
        match self.r.weighted(&[8, 2, 2, 1, 2]) {
            0 => {
                let w = self.any_word();
                leaf(K::KeyLit, &w)
            }
            1 => leaf(K::KeyLit, &self.num()),
            2 => leaf(K::KeyLit, &self.str()),
            3 => leaf(K::KeyBin, &self.bin()),
            _ => {
                let e = self.assign();
                t(K::KeyComp, "", vec![e])
            }
        }
    }

    // --------------------------------------------------------------- patterns

    /// A binding pattern; `lexical` says which kind of binding its names are.
    fn binding(&mut self, lexical: bool, d: usize) -> T {
        let w = if d > 2 || self.budget <= 0 { 0 } else { self.r.weighted(&[8, 1, 1]) };
        match w {
            0 => leaf(K::PatIdent, &self.declare(lexical)),
            1 => {
                self.budget -= 1;
                let n = self.r.below(4);
                let mut c = vec![];
                for _ in 0..n {
                    if self.r.chance(1, 5) {
                        c.push(leaf(K::PatVoid, ""));
                    } else {
                        let b = self.binding(lexical, d + 1);
                        if self.r.chance(1, 4) {
                            let e = self.assign();
                            c.push(t(K::PatAssign, "", vec![b, e]));
                        } else {
                            c.push(b);
                        }
                    }
                }
                t(K::PatArr, "", c)
            }
            _ => {
                self.budget -= 1;
                let c = self.pattern_props(Some(lexical), d);
                t(K::PatObj, "", c)
            }
        }
    }

    /// Properties of an object pattern; `decl` is Some(lexical) for binding patterns.
    fn pattern_props(&mut self, decl: Option<bool>, d: usize) -> Vec<T> {
        let n = self.r.below(4);
        let mut c = vec![];
        for i in 0..n {
            if i + 1 == n && self.r.chance(1, 8) {
                let nm = self.pat_name(decl);
                c.push(t(K::PSpread, "", vec![leaf(K::Ident, &nm)]));
            } else if self.r.chance(1, 2) {
                let nm = self.pat_name(decl);
                c.push(leaf(K::PShort, &nm));
            } else {
                let k = self.obj_key();
                let v = self.pattern_expr(decl, d + 1);
                c.push(t(K::PKV, "", vec![k, v]));
            }
        }
        c
    }

    fn pat_name(&mut self, decl: Option<bool>) -> String {
        match decl {
            Some(l) => self.declare(l),
            None => self.use_name(),
        }
    }

    /// A pattern in the notation the tree uses below an object pattern: as an expression
    fn pattern_expr(&mut self, decl: Option<bool>, d: usize) -> T {
        let base = match if d > 2 { 0 } else { self.r.weighted(&[8, 1, 1]) } {
            0 => match decl {
                Some(l) => leaf(K::Ident, &self.declare(l)),
                None => self.simple_target(),
            },
            1 => {
                let n = self.r.below(3);
                let mut c = vec![];
                for i in 0..n {
                    if self.r.chance(1, 6) {
                        c.push(leaf(K::Void, ""));
                    } else if i + 1 == n && self.r.chance(1, 6) {
                        let nm = self.pat_name(decl);
                        c.push(t(K::Spread, "", vec![leaf(K::Ident, &nm)]));
                    } else {
                        c.push(self.pattern_expr(decl, d + 1));
                    }
                }
                t(K::Array, "", c)
            }
            _ => {
                let c = self.pattern_props(decl, d + 1);
                t(K::Object, "", c)
            }
        };
        if self.r.chance(1, 4) {
            let e = self.assign();
            t(K::Binary, "=", vec![base, e])
        } else {
            base
        }
    }

    /// Left side of a destructuring assignment
    fn assign_pattern(&mut self, d: usize) -> T {
        self.budget -= 1;
        loop {
            let p = self.pattern_expr(None, d);
            if p.is(K::Array) || p.is(K::Object) {
                return p;
            }
        }
    }

    // --------------------------------------------------------------- expressions

    /// Ident / member / computed member
    pub fn simple_target(&mut self) -> T {
        match self.r.below(4) {
            0 if self.budget > 0 => {
                let o = self.sub();
                let w = self.member_name();
                t(K::Member, "", vec![o, w])
            }
            1 if self.budget > 0 => {
                let o = self.sub();
                let p = self.expr();
                t(K::CMember, "", vec![o, p])
            }
            _ => leaf(K::Ident, &self.use_name()),
        }
    }

    fn member_name(&mut self) -> T {
        let w = self.any_word();
        // non-ASCII property names included
        leaf(K::Name, &w)
    }

    pub fn leaf_expr(&mut self) -> T {
        self.budget -= 1;
        match self.r.weighted(&[12, 3, 1, 1, 1, 1, 1, 2, 1, 1, 1]) {
            0 => leaf(K::Ident, &self.use_name()),
            1 => leaf(K::LitNum, &self.num()),
            2 => leaf(K::This, ""),
            3 => leaf(K::LitUndefined, ""),
            4 => leaf(K::LitNull, ""),
            5 => leaf(K::LitTrue, ""),
            6 => leaf(K::LitFalse, ""),
            7 => leaf(K::LitStr, &self.str()),
            8 => leaf(K::LitRe, &self.regex()),
            9 => leaf(K::LitBin, &self.bin()),
            _ => {
                if self.fns.iter().any(|f| f.is_fn) && self.fns.last().unwrap().is_fn {
                    t(K::Meta, "", vec![leaf(K::Name, "new"), leaf(K::Name, "target")])
                } else {
                    leaf(K::Ident, &self.use_name())
                }
            }
        }
    }

    /// Any expression, sequences included
    pub fn expr(&mut self) -> T {
        if self.budget > 3 && self.r.chance(1, 12) {
            let n = 2 + self.len(&[1, 1]);
            let c = (0..n).map(|_| self.assign()).collect();
            return t(K::Seq, "", c);
        }
        self.assign()
    }

    /// An expression in a slot where a sequence is possible but rare
    pub fn sub(&mut self) -> T {
        if self.r.chance(1, 25) {
            self.expr()
        } else {
            self.assign()
        }
    }

    /// Any AssignmentExpression
    pub fn assign(&mut self) -> T {
        self.depth += 1;
        let e = if self.depth > self.p.max_depth + 4 || self.budget <= 0 {
            self.leaf_expr()
        } else {
            self.assign_inner()
        };
        self.depth -= 1;
        e
    }

    fn args(&mut self) -> Vec<T> {
        let n = self.len(&[3, 4, 2, 1]);
        (0..n)
            .map(|_| {
                let e = self.sub();
                if self.r.chance(1, 10) {
                    t(K::Spread, "", vec![e])
                } else {
                    e
                }
            })
            .collect()
    }

    pub fn template(&mut self) -> T {
        let n = self.len(&[3, 3, 2, 1]);
        let mut c = vec![leaf(K::Quasi, &self.quasi())];
        for _ in 0..n {
            c.push(self.expr());
            c.push(leaf(K::Quasi, &self.quasi()));
        }
        for q in c.iter_mut() {
            if q.is(K::Quasi) && q.s.ends_with("${") && !q.s.ends_with("\\${") {
                q.s = "}$ {".into();
            }
        }
        t(K::Template, "", c)
    }

    fn assign_inner(&mut self) -> T {
        self.budget -= 1;
        let w = [
            30, // 0 leaf
            14, // 1 binary
            6,  // 2 assignment
            7,  // 3 prefix
            3,  // 4 inc/dec prefix
            3,  // 5 postfix
            5,  // 6 conditional
            9,  // 7 member
            5,  // 8 computed member
            10, // 9 call
            4,  // 10 new
            4,  // 11 array
            6,  // 12 object
            5,  // 13 function
            6,  // 14 arrow
            2,  // 15 class
            3,  // 16 template
            2,  // 17 tagged
            1,  // 18 delete
            1,  // 19 destructuring assignment
        ];
        match self.r.weighted(&w) {
            0 => self.leaf_expr(),
            1 => {
                let op = *self.r.pick(BINOPS);
                let a = self.sub();
                let b = self.sub();
                t(K::Binary, op, vec![a, b])
            }
            2 => {
                let op = if self.r.chance(1, 2) { "=" } else { *self.r.pick(ASSIGNOPS) };
                let a = self.simple_target();
                let b = self.sub();
                t(K::Binary, op, vec![a, b])
            }
            3 => {
                let op = *self.r.pick(PREOPS);
                let a = self.sub();
                t(K::Prefix, op, vec![a])
            }
            4 => {
                let a = self.simple_target();
                t(K::Prefix, if self.r.chance(1, 2) { "++" } else { "--" }, vec![a])
            }
            5 => {
                let a = self.simple_target();
                t(K::Postfix, if self.r.chance(1, 2) { "++" } else { "--" }, vec![a])
            }
            6 => {
                let a = self.sub();
                let b = self.sub();
                let c = self.sub();
                t(K::Cond, "", vec![a, b, c])
            }
            7 => {
                let o = self.sub();
                let w = self.member_name();
                t(K::Member, "", vec![o, w])
            }
            8 => {
                let o = self.sub();
                let p = self.expr();
                t(K::CMember, "", vec![o, p])
            }
            9 => {
                let mut c = vec![self.sub()];
                c.extend(self.args());
                t(K::Call, "", c)
            }
            10 => {
                let callee = self.sub();
                if self.r.chance(3, 4) || callee.is(K::Call) {
                    let mut c = vec![callee];
                    c.extend(self.args());
                    t(K::Prefix, "new", vec![t(K::Call, "", c)])
                } else {
                    t(K::Prefix, "new", vec![callee])
                }
            }
            11 => {
                let n = self.len(&[1, 1, 1, 1, 1]);
                let mut c = vec![];
                for _ in 0..n {
                    if self.r.chance(1, 8) {
                        c.push(leaf(K::Void, ""));
                    } else {
                        let e = self.sub();
                        if self.r.chance(1, 8) {
                            c.push(t(K::Spread, "", vec![e]));
                        } else {
                            c.push(e);
                        }
                    }
                }
                t(K::Array, "", c)
            }
            12 => {
                let n = self.len(&[1, 1, 1, 1]);
                let mut c = vec![];
                for _ in 0..n {
                    match self.r.weighted(&[6, 3, 3, 1]) {
                        0 => {
                            let k = self.obj_key();
                            let v = self.sub();
                            c.push(t(K::PKV, "", vec![k, v]));
                        }
                        1 => c.push(leaf(K::PShort, &self.use_name())),
                        2 => {
                            let k = self.obj_key();
                            let m = self.method(None);
                            c.push(t(K::PMethod, "", vec![k, m]));
                        }
                        _ => {
                            let e = self.sub();
                            c.push(t(K::PSpread, "", vec![e]));
                        }
                    }
                }
                t(K::Object, "", c)
            }
            13 => {
                let nm = if self.r.chance(1, 2) { leaf(K::Name, &self.use_name()) } else { nil() };
                let gen = if self.r.chance(1, 6) { "*" } else { "" };
                let (p, b) = self.fn_rest();
                t(K::FnExpr, gen, vec![nm, p, b])
            }
            14 => {
                let was_fn = self.fns.last().unwrap().is_fn;
                let mut fs = FnScope::new(true);
                fs.is_fn = true;
                self.fns.push(fs);
                self.blocks.push(HashSet::new());
                let n = self.len(&[3, 5, 2]);
                let mut ps = vec![];
                for _ in 0..n {
                    let p = leaf(K::PatIdent, &self.declare(true));
                    if self.r.chance(1, 6) {
                        let d = self.assign();
                        ps.push(t(K::PatAssign, "", vec![p, d]));
                    } else {
                        ps.push(p);
                    }
                }
                let r = if self.r.chance(1, 2) {
                    let b = self.sub();
                    t(K::Arrow, "expr", vec![t(K::Params, "", ps), b])
                } else {
                    let b = self.block_here();
                    t(K::Arrow, "block", vec![t(K::Params, "", ps), b])
                };
                self.blocks.pop();
                self.fns.pop();
                // new.target is only legal in an arrow when it is inside a function
                if was_fn {
                    r
                } else {
                    strip_meta(r)
                }
            }
            15 => self.class(false),
            16 => self.template(),
            17 => {
                let tag = self.sub();
                let q = self.template();
                t(K::Tagged, "", vec![tag, q])
            }
            18 => {
                let o = self.sub();
                let w = self.member_name();
                t(K::Prefix, "delete", vec![t(K::Member, "", vec![o, w])])
            }
            _ => {
                let p = self.assign_pattern(0);
                let e = self.sub();
                t(K::Binary, "=", vec![p, e])
            }
        }
    }
}

/// Replace `new.target` outside of any (non-arrow) function.
pub fn strip_meta(mut x: T) -> T {
    fn go(x: &mut T) {
        match x.k {
            K::Meta => *x = leaf(K::Ident, "meta"),
            K::FnDecl | K::FnExpr | K::Method => {}
            _ => {
                for c in &mut x.c {
                    go(c);
                }
            }
        }
    }
    go(&mut x);
    x
}

// ------------------------------------------------------------------- systematic pairs

/// Every construct with an expression slot, filled with every construct: the complete set of
/// (parent, slot, child) pairs of the expression grammar. Index -> program.
pub fn pair_count() -> usize {
    parents().len() * children().len()
}

fn id(s: &str) -> T {
    leaf(K::Ident, s)
}

type Mk = Box<dyn Fn(T) -> T>;

fn block_of(v: Vec<T>) -> T {
    t(K::Block, "", v)
}
fn params(v: &[&str]) -> T {
    t(K::Params, "", v.iter().map(|s| leaf(K::PatIdent, s)).collect())
}
fn stm(e: T) -> T {
    t(K::ExprStmt, "", vec![e])
}
fn fnexpr(body: Vec<T>) -> T {
    t(K::FnExpr, "", vec![nil(), params(&["p"]), block_of(body)])
}

pub fn children() -> Vec<T> {
    let mut v = vec![
        id("y"),
        leaf(K::LitNum, "1"),
        leaf(K::LitNum, "1.5"),
        leaf(K::LitNum, "0x1f"),
        leaf(K::LitBin, "0b11"),
        leaf(K::LitStr, "'s'"),
        leaf(K::LitRe, "/r/g"),
        leaf(K::LitUndefined, ""),
        leaf(K::LitNull, ""),
        leaf(K::LitTrue, ""),
        leaf(K::This, ""),
        t(K::Seq, "", vec![id("y"), id("z")]),
        t(K::Array, "", vec![id("y")]),
        t(K::Object, "", vec![leaf(K::PShort, "y")]),
        t(K::Member, "", vec![id("y"), leaf(K::Name, "z")]),
        t(K::CMember, "", vec![id("y"), id("z")]),
        t(K::Call, "", vec![id("y")]),
        t(K::Call, "", vec![t(K::Member, "", vec![id("y"), leaf(K::Name, "z")]), id("w")]),
        t(K::Member, "", vec![t(K::Call, "", vec![id("y")]), leaf(K::Name, "z")]),
        t(K::CMember, "", vec![t(K::Call, "", vec![id("y")]), id("z")]),
        t(K::Prefix, "new", vec![id("y")]),
        t(K::Prefix, "new", vec![t(K::Call, "", vec![id("y"), id("z")])]),
        t(K::Prefix, "new", vec![t(K::Call, "", vec![t(K::Member, "", vec![id("y"), leaf(K::Name, "z")])])]),
        t(K::Prefix, "new", vec![t(K::Call, "", vec![t(K::Call, "", vec![id("y")])])]),
        t(K::Member, "", vec![t(K::Prefix, "new", vec![t(K::Call, "", vec![id("y")])]), leaf(K::Name, "z")]),
        t(K::Member, "", vec![t(K::Prefix, "new", vec![id("y")]), leaf(K::Name, "z")]),
        t(K::Cond, "", vec![id("y"), id("z"), id("w")]),
        t(K::Template, "", vec![leaf(K::Quasi, "q")]),
        t(K::Template, "", vec![leaf(K::Quasi, "q"), id("y"), leaf(K::Quasi, "r")]),
        t(K::Tagged, "", vec![id("y"), t(K::Template, "", vec![leaf(K::Quasi, "q")])]),
        t(K::Tagged, "", vec![id("y"), t(K::Template, "", vec![leaf(K::Quasi, "q"), id("z"), leaf(K::Quasi, "")])]),
        t(K::Arrow, "expr", vec![params(&["y"]), id("z")]),
        t(K::Arrow, "expr", vec![params(&[]), t(K::Object, "", vec![])]),
        t(K::Arrow, "block", vec![params(&["y", "z"]), block_of(vec![])]),
        fnexpr(vec![]),
        t(K::FnExpr, "*", vec![leaf(K::Name, "g"), params(&[]), block_of(vec![stm(id("y"))])]),
        t(K::ClassExpr, "", vec![nil(), nil(), t(K::ClassBody, "", vec![])]),
        t(K::ClassExpr, "", vec![leaf(K::Name, "C"), id("y"), t(K::ClassBody, "", vec![])]),
        t(K::Postfix, "++", vec![id("y")]),
        t(K::Postfix, "--", vec![id("y")]),
        t(K::Prefix, "++", vec![id("y")]),
        t(K::Prefix, "--", vec![id("y")]),
        t(K::Prefix, "delete", vec![t(K::Member, "", vec![id("y"), leaf(K::Name, "z")])]),
        t(K::Prefix, "-", vec![t(K::Prefix, "-", vec![id("y")])]),
        t(K::Prefix, "+", vec![t(K::Prefix, "++", vec![id("y")])]),
        t(K::Prefix, "-", vec![leaf(K::LitNum, "1")]),
        t(K::Binary, "=", vec![t(K::Array, "", vec![id("y")]), id("z")]),
        t(K::Binary, "=", vec![t(K::Object, "", vec![leaf(K::PShort, "y")]), id("z")]),
    ];
    for op in PREOPS {
        v.push(t(K::Prefix, op, vec![id("y")]));
    }
    for op in BINOPS {
        v.push(t(K::Binary, op, vec![id("y"), id("z")]));
    }
    for op in ASSIGNOPS {
        v.push(t(K::Binary, op, vec![id("y"), id("z")]));
    }
    v
}

/// Parent constructs: a whole program with one expression slot.
pub fn parents() -> Vec<Mk> {
    let mut v: Vec<Mk> = vec![];
    fn prog(s: T) -> T {
        t(K::Module, "", vec![s])
    }
    fn e(f: impl Fn(T) -> T + 'static) -> Mk {
        Box::new(move |x| prog(stm(f(x))))
    }
    fn s(f: impl Fn(T) -> T + 'static) -> Mk {
        Box::new(move |x| prog(f(x)))
    }
    v.push(e(|x| x));
    v.push(e(|x| t(K::Seq, "", vec![x, id("a")])));
    v.push(e(|x| t(K::Seq, "", vec![id("a"), x])));
    v.push(e(|x| t(K::Array, "", vec![x])));
    v.push(e(|x| t(K::Array, "", vec![id("a"), t(K::Spread, "", vec![x]), leaf(K::Void, ""), id("b")])));
    v.push(e(|x| t(K::Object, "", vec![t(K::PKV, "", vec![leaf(K::KeyLit, "k"), x]), leaf(K::PShort, "b")])));
    v.push(e(|x| t(K::Object, "", vec![t(K::PKV, "", vec![t(K::KeyComp, "", vec![x]), id("b")])])));
    v.push(e(|x| t(K::Object, "", vec![t(K::PSpread, "", vec![x])])));
    v.push(e(|x| {
        t(K::Object, "", vec![t(K::PMethod, "", vec![t(K::KeyComp, "", vec![x]), t(K::Method, "", vec![nil(), params(&[]), block_of(vec![])])])])
    }));
    v.push(e(|x| t(K::Member, "", vec![x, leaf(K::Name, "a")])));
    v.push(e(|x| t(K::Member, "", vec![t(K::Member, "", vec![x, leaf(K::Name, "a")]), leaf(K::Name, "in")])));
    v.push(e(|x| t(K::CMember, "", vec![x, id("a")])));
    v.push(e(|x| t(K::CMember, "", vec![id("a"), x])));
    v.push(e(|x| t(K::Call, "", vec![x])));
    v.push(e(|x| t(K::Call, "", vec![x, id("a")])));
    v.push(e(|x| t(K::Call, "", vec![id("a"), x, id("b")])));
    v.push(e(|x| t(K::Call, "", vec![id("a"), t(K::Spread, "", vec![x])])));
    v.push(e(|x| t(K::Call, "", vec![t(K::Member, "", vec![x, leaf(K::Name, "a")])])));
    v.push(e(|x| t(K::Prefix, "new", vec![t(K::Call, "", vec![x, id("a")])])));
    v.push(e(|x| {
        if x.is(K::Call) {
            t(K::Prefix, "new", vec![t(K::Call, "", vec![x])])
        } else {
            t(K::Prefix, "new", vec![x])
        }
    }));
    v.push(e(|x| t(K::Prefix, "new", vec![t(K::Call, "", vec![id("a"), x])])));
    v.push(e(|x| t(K::Prefix, "new", vec![t(K::Call, "", vec![t(K::Member, "", vec![x, leaf(K::Name, "a")])])])));
    v.push(e(|x| t(K::Member, "", vec![t(K::Prefix, "new", vec![t(K::Call, "", vec![x])]), leaf(K::Name, "a")])));
    v.push(e(|x| t(K::Cond, "", vec![x, id("a"), id("b")])));
    v.push(e(|x| t(K::Cond, "", vec![id("a"), x, id("b")])));
    v.push(e(|x| t(K::Cond, "", vec![id("a"), id("b"), x])));
    v.push(e(|x| t(K::Template, "", vec![leaf(K::Quasi, "q"), x, leaf(K::Quasi, "r")])));
    v.push(e(|x| t(K::Tagged, "", vec![x, t(K::Template, "", vec![leaf(K::Quasi, "q")])])));
    v.push(e(|x| t(K::Tagged, "", vec![x, t(K::Template, "", vec![leaf(K::Quasi, ""), id("a"), leaf(K::Quasi, "")])])));
    v.push(e(|x| t(K::Arrow, "expr", vec![params(&["p"]), x])));
    v.push(e(|x| t(K::Call, "", vec![t(K::Arrow, "expr", vec![params(&["p"]), x])])));
    v.push(e(|x| t(K::Arrow, "expr", vec![t(K::Params, "", vec![t(K::PatAssign, "", vec![leaf(K::PatIdent, "p"), x])]), id("a")])));
    v.push(e(|x| t(K::FnExpr, "", vec![nil(), t(K::Params, "", vec![t(K::PatAssign, "", vec![leaf(K::PatIdent, "p"), x])]), block_of(vec![])])));
    v.push(e(|x| fnexpr(vec![t(K::Return, "", vec![x])])));
    v.push(e(|x| t(K::ClassExpr, "", vec![nil(), x, t(K::ClassBody, "", vec![])])));
    v.push(e(|x| t(K::ClassExpr, "", vec![nil(), nil(), t(K::ClassBody, "", vec![t(K::CField, "", vec![leaf(K::KeyLit, "k"), x])])])));
    v.push(e(|x| {
        t(K::ClassExpr, "", vec![nil(), nil(), t(K::ClassBody, "", vec![t(K::CField, "static", vec![t(K::KeyComp, "", vec![x]), id("a")])])])
    }));
    v.push(e(|x| {
        t(K::ClassExpr, "", vec![nil(), nil(), t(K::ClassBody, "", vec![t(K::CMethod, "static method", vec![t(K::KeyComp, "", vec![x]), t(K::Method, "", vec![nil(), params(&[]), block_of(vec![])])])])])
    }));
    for op in PREOPS {
        v.push(e(move |x| t(K::Prefix, op, vec![x])));
    }
    for op in ["++", "--"] {
        // only simple assignment targets are legal operands
        v.push(e(move |x| t(K::Prefix, op, vec![t(K::CMember, "", vec![x, id("a")])])));
        v.push(e(move |x| t(K::Postfix, op, vec![t(K::Member, "", vec![x, leaf(K::Name, "a")])])));
    }
    v.push(e(|x| t(K::Prefix, "delete", vec![t(K::Member, "", vec![x, leaf(K::Name, "a")])])));
    for op in BINOPS {
        v.push(e(move |x| t(K::Binary, op, vec![x, id("a")])));
        v.push(e(move |x| t(K::Binary, op, vec![id("a"), x])));
    }
    for op in ASSIGNOPS {
        v.push(e(move |x| t(K::Binary, op, vec![id("a"), x])));
        v.push(e(move |x| t(K::Binary, op, vec![t(K::Member, "", vec![x, leaf(K::Name, "b")]), id("a")])));
    }
    v.push(e(|x| t(K::Binary, "=", vec![t(K::Array, "", vec![t(K::Binary, "=", vec![id("a"), x])]), id("b")])));
    // statements
    v.push(s(|x| t(K::Decl, "var", vec![t(K::Declarator, "", vec![leaf(K::PatIdent, "a"), x]), t(K::Declarator, "", vec![leaf(K::PatIdent, "b"), nil()])])));
    v.push(s(|x| t(K::Decl, "let", vec![t(K::Declarator, "", vec![t(K::PatArr, "", vec![t(K::PatAssign, "", vec![leaf(K::PatIdent, "a"), x])]), id("b")])])));
    v.push(s(|x| {
        t(K::Decl, "const", vec![t(K::Declarator, "", vec![t(K::PatObj, "", vec![t(K::PKV, "", vec![leaf(K::KeyLit, "k"), t(K::Binary, "=", vec![id("a"), x])])]), id("b")])])
    }));
    v.push(s(|x| t(K::If, "", vec![x, t(K::Block, "", vec![]), nil()])));
    v.push(s(|x| t(K::If, "", vec![id("a"), stm(x), stm(id("b"))])));
    v.push(s(|x| t(K::If, "", vec![id("a"), stm(id("b")), stm(x)])));
    v.push(s(|x| t(K::If, "", vec![id("a"), leaf(K::Empty, ""), stm(x)])));
    v.push(s(|x| t(K::While, "", vec![x, leaf(K::Empty, "")])));
    v.push(s(|x| t(K::While, "", vec![id("a"), stm(x)])));
    v.push(s(|x| t(K::Do, "", vec![stm(id("a")), x])));
    v.push(s(|x| t(K::Do, "", vec![stm(x), id("a")])));
    v.push(s(|x| t(K::For, "", vec![x, nil(), nil(), leaf(K::Empty, "")])));
    v.push(s(|x| t(K::For, "", vec![nil(), x, nil(), leaf(K::Empty, "")])));
    v.push(s(|x| t(K::For, "", vec![nil(), nil(), x, stm(id("a"))])));
    v.push(s(|x| t(K::For, "", vec![t(K::Decl, "var", vec![t(K::Declarator, "", vec![leaf(K::PatIdent, "a"), x])]), nil(), nil(), leaf(K::Empty, "")])));
    v.push(s(|x| t(K::For, "", vec![t(K::Arrow, "expr", vec![params(&["p"]), x]), nil(), nil(), leaf(K::Empty, "")])));
    v.push(s(|x| t(K::For, "", vec![t(K::Binary, "=", vec![id("a"), t(K::Cond, "", vec![id("b"), id("c"), x])]), nil(), nil(), leaf(K::Empty, "")])));
    v.push(s(|x| t(K::ForIn, "", vec![id("a"), x, leaf(K::Empty, "")])));
    v.push(s(|x| t(K::ForIn, "", vec![t(K::Member, "", vec![x, leaf(K::Name, "k")]), id("a"), stm(id("b"))])));
    v.push(s(|x| t(K::ForIn, "", vec![t(K::Decl, "const", vec![t(K::Declarator, "", vec![leaf(K::PatIdent, "k"), nil()])]), x, block_of(vec![])])));
    v.push(s(|x| t(K::ForOf, "", vec![t(K::CMember, "", vec![id("a"), x]), id("b"), leaf(K::Empty, "")])));
    v.push(s(|x| t(K::ForOf, "", vec![t(K::Decl, "let", vec![t(K::Declarator, "", vec![leaf(K::PatIdent, "k"), nil()])]), x, stm(id("c"))])));
    v.push(s(|x| t(K::ForOf, "", vec![t(K::Decl, "let", vec![t(K::Declarator, "", vec![t(K::PatArr, "", vec![t(K::PatAssign, "", vec![leaf(K::PatIdent, "k"), x])]), nil()])]), id("a"), stm(id("c"))])));
    v.push(s(|x| t(K::Throw, "", vec![x])));
    v.push(s(|x| t(K::Switch, "", vec![x, t(K::Case, "", vec![nil()])])));
    v.push(s(|x| t(K::Switch, "", vec![id("a"), t(K::Case, "", vec![x, stm(id("b")), t(K::Break, "", vec![nil()])]), t(K::Case, "", vec![nil(), stm(id("c"))])])));
    v.push(s(|x| t(K::Switch, "", vec![id("a"), t(K::Case, "", vec![id("b"), stm(x)])])));
    v.push(s(|x| t(K::Labeled, "l", vec![stm(x)])));
    v.push(s(|x| t(K::Block, "", vec![stm(x), stm(id("a"))])));
    v.push(s(|x| t(K::Try, "", vec![block_of(vec![stm(x)]), t(K::Catch, "", vec![leaf(K::PatIdent, "q"), block_of(vec![])]), block_of(vec![stm(id("a"))])])));
    v.push(s(|x| t(K::FnDecl, "*", vec![leaf(K::Name, "g"), t(K::Params, "", vec![t(K::PatAssign, "", vec![leaf(K::PatIdent, "p"), x])]), block_of(vec![])])));
    v.push(s(|x| t(K::ClassDecl, "", vec![leaf(K::Name, "C"), x, t(K::ClassBody, "", vec![t(K::CMethod, "constructor", vec![leaf(K::KeyLit, "constructor"), t(K::Method, "", vec![nil(), params(&[]), block_of(vec![])])])])])));
    v
}

/// Is the construct one that yields an expression statement (so that it can be nested)?
fn inner(p: T) -> Option<T> {
    if p.c[0].is(K::ExprStmt) {
        p.c.into_iter().next().unwrap().c.into_iter().next()
    } else {
        None
    }
}

/// `depth` random expression constructs around a random child, inside a random construct.
pub fn chain(r: &mut Rng, depth: usize) -> T {
    thread_local! {
        static P: Vec<Mk> = parents();
        static C: Vec<T> = children();
    }
    P.with(|p| C.with(|c| {
        let mut x = r.pick(c).clone();
        for _ in 0..depth {
            loop {
                let i = r.below(p.len());
                if let Some(y) = inner(p[i](x.clone())) {
                    x = y;
                    break;
                }
            }
        }
        let i = r.below(p.len());
        p[i](x)
    }))
}

/// Long runs of postfix constructs (member, call, template) or of constructs that begin with
/// their operand, with other constructs between them and around them.
pub fn runs(r: &mut Rng) -> T {
    fn leads(mut x: &T) -> (bool, bool) {
        let mut tight = true;
        loop {
            if x.is(K::Ident) {
                return (x.s == "zzz", tight);
            }
            tight &= matches!(x.k, K::Member | K::CMember | K::Call | K::Tagged);
            if !tight && !matches!(x.k, K::Binary | K::Cond | K::Seq | K::Postfix | K::Member | K::CMember | K::Call | K::Tagged) {
                return (false, false);
            }
            x = &x.c[0];
        }
    }
    thread_local! {
        static P: Vec<Mk> = parents();
        static Q: [Vec<usize>; 2] = {
            let l: Vec<_> = parents().iter().enumerate().filter_map(|(i, p)| inner(p(id("zzz"))).map(|x| (i, leads(&x)))).collect();
            [
                l.iter().filter(|(_, (a, b))| *a && *b).map(|x| x.0).collect(),
                l.iter().filter(|(_, (a, _))| *a).map(|x| x.0).collect(),
            ]
        };
        static C: Vec<T> = children();
    }
    P.with(|p| Q.with(|q| C.with(|c| {
        let mut x = r.pick(c).clone();
        for _ in 0..r.range(1, 3) {
            let q = &q[r.below(2)];
            let one = if r.chance(1, 3) { Some(*r.pick(q)) } else { None };
            let most = if r.chance(1, 4) { 40 } else { 12 };
            let n = r.range(1, most);
            for _ in 0..n {
                x = inner(p[one.unwrap_or_else(|| *r.pick(q))](x)).unwrap();
            }
            if r.chance(1, 2) {
                let i = r.below(p.len());
                if inner(p[i](id("a"))).is_some() {
                    x = inner(p[i](x)).unwrap();
                }
            }
        }
        let i = r.below(p.len());
        p[i](x)
    })))
}

/// One expression construct nested in itself `depth` times.
pub fn tower(r: &mut Rng, depth: usize) -> T {
    thread_local! {
        static P: Vec<Mk> = parents();
        static C: Vec<T> = children();
    }
    P.with(|p| C.with(|c| {
        let mut x = r.pick(c).clone();
        loop {
            let i = r.below(p.len());
            if inner(p[i](id("a"))).is_none() {
                continue;
            }
            for _ in 0..depth {
                x = inner(p[i](x)).unwrap();
            }
            return t(K::Module, "", vec![stm(x)]);
        }
    }))
}

/// Statements nested in statements, `depth` levels.
pub fn stmt_tower(r: &mut Rng, depth: usize) -> T {
    let mut x = stm(id("a"));
    let kind = r.below(14);
    for i in 0..depth {
        let k = if kind == 13 { r.below(13) } else { kind };
        x = match k {
            0 => t(K::Block, "", vec![x]),
            1 => t(K::If, "", vec![id("b"), t(K::Block, "", vec![x]), nil()]),
            2 => t(K::If, "", vec![id("b"), t(K::Block, "", vec![]), x]),
            3 => t(K::While, "", vec![id("b"), x]),
            4 => t(K::Do, "", vec![x, id("b")]),
            5 => t(K::For, "", vec![nil(), nil(), nil(), x]),
            6 => t(K::ForIn, "", vec![id("b"), id("c"), x]),
            7 => t(K::Labeled, &format!("l{}", i), vec![x]),
            8 => t(K::FnDecl, "", vec![leaf(K::Name, "f"), params(&["p"]), block_of(vec![x])]),
            9 => t(K::Try, "", vec![block_of(vec![x]), t(K::Catch, "", vec![leaf(K::PatIdent, "e"), block_of(vec![])]), nil()]),
            10 => t(K::Try, "", vec![block_of(vec![]), nil(), block_of(vec![x])]),
            11 => t(K::Switch, "", vec![id("b"), t(K::Case, "", vec![nil(), x])]),
            _ => stm(t(K::Arrow, "block", vec![params(&[]), block_of(vec![x])])),
        };
        // a function declaration is only legal in a statement list
        if matches!(k, 8) {
            x = t(K::Block, "", vec![x]);
        }
    }
    t(K::Module, "", vec![x])
}

/// Statements of every kind, each ending in its own way; `n` makes the names it declares its own.
fn stmts(n: &str) -> Vec<T> {
    let nm = |s: &str| format!("{}{}", s, n);
    let pat = |s: &str| leaf(K::PatIdent, &nm(s));
    let decl = |k: &str, v: Vec<T>| t(K::Decl, k, v);
    let dr = |a: T, b: T| t(K::Declarator, "", vec![a, b]);
    let empty = || leaf(K::Empty, "");
    let mut v: Vec<T> = vec![
        empty(),
        leaf(K::Debugger, ""),
        decl("var", vec![dr(pat("a"), nil())]),
        decl("let", vec![dr(pat("a"), id("b"))]),
        decl("const", vec![dr(pat("a"), fnexpr(vec![])), dr(t(K::PatArr, "", vec![pat("b")]), id("c"))]),
        decl("let", vec![dr(pat("a"), t(K::Arrow, "block", vec![params(&[]), block_of(vec![])]))]),
        t(K::Throw, "", vec![id("a")]),
        t(K::If, "", vec![id("a"), empty(), nil()]),
        t(K::If, "", vec![id("a"), block_of(vec![]), nil()]),
        t(K::If, "", vec![id("a"), stm(id("b")), nil()]),
        t(K::If, "", vec![id("a"), stm(id("b")), stm(id("c"))]),
        t(K::If, "", vec![id("a"), block_of(vec![]), block_of(vec![])]),
        t(K::If, "", vec![id("a"), block_of(vec![t(K::If, "", vec![id("b"), stm(id("c")), nil()])]), stm(id("d"))]),
        t(K::While, "", vec![id("a"), empty()]),
        t(K::While, "", vec![id("a"), stm(id("b"))]),
        t(K::While, "", vec![id("a"), t(K::Break, "", vec![nil()])]),
        t(K::While, "", vec![id("a"), t(K::Continue, "", vec![nil()])]),
        t(K::Do, "", vec![stm(id("a")), id("b")]),
        t(K::Do, "", vec![block_of(vec![]), id("b")]),
        t(K::Do, "", vec![empty(), id("b")]),
        t(K::For, "", vec![nil(), nil(), nil(), empty()]),
        t(K::For, "", vec![decl("let", vec![dr(pat("i"), leaf(K::LitNum, "0"))]), id("b"), id("c"), block_of(vec![])]),
        t(K::ForIn, "", vec![decl("var", vec![dr(pat("i"), nil())]), id("b"), stm(id("c"))]),
        t(K::ForOf, "", vec![id("i"), id("b"), block_of(vec![])]),
        t(K::Try, "", vec![block_of(vec![]), t(K::Catch, "", vec![leaf(K::PatIdent, "e"), block_of(vec![])]), nil()]),
        t(K::Try, "", vec![block_of(vec![]), nil(), block_of(vec![])]),
        block_of(vec![]),
        block_of(vec![stm(id("a"))]),
        block_of(vec![empty()]),
        t(K::Labeled, &nm("l"), vec![empty()]),
        t(K::Labeled, &nm("l"), vec![stm(id("a"))]),
        t(K::Labeled, &nm("l"), vec![t(K::For, "", vec![nil(), nil(), nil(), t(K::Continue, "", vec![leaf(K::Name, &nm("l"))])])]),
        t(K::Labeled, &nm("l"), vec![block_of(vec![t(K::Break, "", vec![leaf(K::Name, &nm("l"))])])]),
        t(K::Switch, "", vec![id("a")]),
        t(K::Switch, "", vec![id("a"), t(K::Case, "", vec![id("b"), t(K::Break, "", vec![nil()])]), t(K::Case, "", vec![nil()])]),
        t(K::FnDecl, "", vec![leaf(K::Name, &nm("f")), params(&["p"]), block_of(vec![t(K::Return, "", vec![nil()])])]),
        t(K::FnDecl, "*", vec![leaf(K::Name, &nm("f")), params(&[]), block_of(vec![t(K::Return, "", vec![id("r")])])]),
        t(K::ClassDecl, "", vec![leaf(K::Name, &nm("C")), nil(), t(K::ClassBody, "", vec![])]),
        t(K::ClassDecl, "", vec![leaf(K::Name, &nm("C")), id("a"), t(K::ClassBody, "", vec![t(K::CField, "", vec![leaf(K::KeyLit, "k"), id("b")])])]),
    ];
    for x in children() {
        v.push(stm(x));
    }
    v
}

/// Places of a statement; `true` when a declaration may stand there, too
fn places() -> Vec<(bool, Mk)> {
    let m = |x| t(K::Module, "", vec![x]);
    vec![
        (false, Box::new(move |x: T| m(t(K::If, "", vec![id("z"), x, nil()])))),
        (false, Box::new(move |x: T| {
            let x = if open_if(&x) { block_of(vec![x]) } else { x };
            m(t(K::If, "", vec![id("z"), x, stm(id("y"))]))
        })),
        (false, Box::new(move |x| m(t(K::If, "", vec![id("z"), leaf(K::Empty, ""), x])))),
        (false, Box::new(move |x| m(t(K::If, "", vec![id("z"), block_of(vec![]), x])))),
        (false, Box::new(move |x| m(t(K::If, "", vec![id("z"), stm(id("y")), x])))),
        (false, Box::new(move |x| m(t(K::If, "", vec![id("z"), stm(id("y")), t(K::If, "", vec![id("x"), stm(id("w")), x])])))),
        (false, Box::new(move |x| m(t(K::While, "", vec![id("z"), x])))),
        (false, Box::new(move |x| m(t(K::Do, "", vec![x, id("z")])))),
        (false, Box::new(move |x| m(t(K::For, "", vec![nil(), id("z"), nil(), x])))),
        (false, Box::new(move |x| m(t(K::ForIn, "", vec![id("z"), id("y"), x])))),
        (false, Box::new(move |x| m(t(K::ForOf, "", vec![id("z"), id("y"), x])))),
        (false, Box::new(move |x| m(t(K::Labeled, "out", vec![x])))),
        (true, Box::new(move |x| m(block_of(vec![x])))),
        (true, Box::new(move |x| m(block_of(vec![stm(id("z")), x, stm(id("y"))])))),
        (true, Box::new(move |x| m(t(K::FnDecl, "", vec![leaf(K::Name, "fn"), params(&[]), block_of(vec![x])])))),
        (true, Box::new(move |x| m(stm(t(K::Binary, "=", vec![id("z"), fnexpr(vec![x])]))))),
        (true, Box::new(move |x| m(stm(t(K::Arrow, "block", vec![params(&["p"]), block_of(vec![x])]))))),
        (true, Box::new(move |x| m(stm(t(K::Call, "", vec![id("z"), t(K::Arrow, "block", vec![params(&[]), block_of(vec![x])])]))))),
        (true, Box::new(move |x| m(t(K::ClassDecl, "", vec![leaf(K::Name, "Cl"), nil(), t(K::ClassBody, "", vec![t(K::CMethod, "method", vec![leaf(K::KeyLit, "k"), t(K::Method, "", vec![nil(), params(&[]), block_of(vec![x])])])])])))),
        (true, Box::new(move |x| m(stm(t(K::Binary, "=", vec![id("z"), t(K::Object, "", vec![t(K::PMethod, "", vec![leaf(K::KeyLit, "k"), t(K::Method, "", vec![nil(), params(&[]), block_of(vec![x])])])])]))))),
        (true, Box::new(move |x| m(t(K::Switch, "", vec![id("z"), t(K::Case, "", vec![id("y"), x]), t(K::Case, "", vec![nil()])])))),
        (true, Box::new(move |x| m(t(K::Switch, "", vec![id("z"), t(K::Case, "", vec![nil(), x])])))),
        (true, Box::new(move |x| m(t(K::Try, "", vec![block_of(vec![x]), nil(), block_of(vec![])])))),
        (true, Box::new(move |x| m(t(K::Try, "", vec![block_of(vec![]), t(K::Catch, "", vec![leaf(K::PatIdent, "q"), block_of(vec![x])]), nil()])))),
        (true, Box::new(move |x| m(t(K::Try, "", vec![block_of(vec![]), t(K::Catch, "", vec![leaf(K::PatIdent, "q"), block_of(vec![])]), block_of(vec![x])])))),
    ]
}

fn declares(s: &T) -> bool {
    match s.k {
        K::Decl => s.s != "var",
        K::FnDecl | K::ClassDecl => true,
        _ => false,
    }
}

/// Every statement after every other, and every statement in every place of one.
pub fn stmt_pair(i: usize) -> Option<T> {
    thread_local! {
        static A: (Vec<T>, Vec<T>, Vec<(bool, Mk)>) = (stmts("1"), stmts("2"), places());
    }
    A.with(|(a, b, p)| {
        let n = a.len();
        if i < n * n {
            return Some(t(K::Module, "", vec![a[i / n].clone(), b[i % n].clone()]));
        }
        let i = i - n * n;
        if i >= n * p.len() {
            return None;
        }
        let (p, s) = (&p[i / n], &a[i % n]);
        if declares(s) && !p.0 {
            return Some(t(K::Module, "", vec![s.clone()]));
        }
        Some(p.1(s.clone()))
    })
}

pub fn stmt_pair_count() -> usize {
    thread_local! {
        static N: usize = { let n = stmts("").len(); n * n + n * places().len() };
    }
    N.with(|n| *n)
}

/// The i-th (construct, construct, construct) nesting, in an order in which neighbours have little in common.
pub fn triple(i: u64) -> T {
    thread_local! {
        static P: Vec<Mk> = parents();
        static Q: Vec<usize> = parents().iter().enumerate().filter(|(_, p)| inner(p(id("a"))).is_some()).map(|(i, _)| i).collect();
        static C: Vec<T> = children();
    }
    P.with(|p| Q.with(|q| C.with(|c| {
        let n = (p.len() * q.len() * c.len()) as u64;
        // a prime larger than each of the three factors, so coprime to n
        let i = ((i as u128 * 1_000_003) % n as u128) as usize;
        let x = c[i % c.len()].clone();
        let i = i / c.len();
        let x = inner(p[q[i % q.len()]](x)).unwrap();
        p[i / q.len()](x)
    })))
}

/// Sizes at which counters, buffers and tables end
pub fn magnitude(r: &mut Rng) -> usize {
    let m = match r.below(40) {
        0..=19 => r.range(0, 40),
        20..=32 => *r.pick(&[32usize, 48, 64, 100, 128, 200, 255, 256, 300]),
        33..=37 => *r.pick(&[500usize, 512, 1000, 1024, 2048]),
        38 => *r.pick(&[4096usize, 8192]),
        _ => *r.pick(&[16384usize, 32768, 65535, 100_000]),
    };
    m + r.below(4) - if m > 0 { 1 } else { 0 }
}

/// One list that is long
pub fn wide(r: &mut Rng) -> T {
    let n = magnitude(r);
    let mut g = Gen::new(r, 1_000_000, Profile { max_depth: 2, ..Default::default() });
    let mut k = 0;
    let small = n > 300;
    let mut fresh = |s: &str| {
        k += 1;
        format!("{}{}", s, k)
    };
    fn e(g: &mut Gen, small: bool) -> T {
        g.depth = if small { 9 } else { 1 };
        g.budget = if small { 0 } else { 4 };
        g.assign()
    }
    let kind = g.r.below(32);
    let mut xs = vec![];
    if kind >= 28 {
        // one thing many times over, and then something else
        let f = |a: &str| t(K::FnExpr, "", vec![nil(), params(&[a]), block_of(vec![])]);
        let x = match g.r.below(12) {
            0 => id("a"),
            1 => leaf(K::This, ""),
            2 => f("p"),
            3 => t(K::Arrow, "expr", vec![params(&["p"]), id("a")]),
            4 => t(K::ClassExpr, "", vec![nil(), nil(), t(K::ClassBody, "", vec![])]),
            5 => t(K::Object, "", vec![]),
            6 => t(K::Call, "", vec![id("f")]),
            7 => t(K::Template, "", vec![leaf(K::Quasi, "")]),
            8 => t(K::Array, "", vec![]),
            9 => t(K::Prefix, "new", vec![id("C")]),
            _ => e(&mut g, small),
        };
        let s = match g.r.below(5) {
            0 => leaf(K::Empty, ""),
            1 => block_of(vec![]),
            2 => t(K::If, "", vec![x.clone(), leaf(K::Empty, ""), nil()]),
            _ => stm(x.clone()),
        };
        g.depth = 0;
        g.budget = 30;
        let last = vec![g.item(), stm(leaf(K::This, "")), t(K::Decl, "var", vec![t(K::Declarator, "", vec![leaf(K::PatIdent, "last"), x.clone()])])];
        let mut b = vec![s; n];
        b.extend(last);
        let mut l = vec![x; n];
        g.budget = 20;
        l.push(g.assign());
        let body = match g.r.below(9) {
            0 => return t(K::Module, "", b),
            1 => block_of(b),
            2 => t(K::FnDecl, "", vec![leaf(K::Name, "f"), params(&[]), block_of(b)]),
            3 => stm(t(K::Arrow, "block", vec![params(&[]), block_of(b)])),
            4 => t(K::Switch, "", vec![id("a"), t(K::Case, "", { b.insert(0, id("b")); b }), t(K::Case, "", vec![nil()])]),
            5 => stm(t(K::Object, "", vec![t(K::PMethod, "", vec![leaf(K::KeyLit, "m"), t(K::Method, "", vec![nil(), params(&[]), block_of(b)])])])),
            6 => stm(t(K::Array, "", l)),
            7 => stm(t(K::Call, "", xs_first(id("f"), l))),
            _ => stm(if l.len() > 1 { t(K::Seq, "", l) } else { id("a") }),
        };
        return t(K::Module, "", vec![body]);
    }
    match kind {
        0 => {
            for _ in 0..n {
                let x = e(&mut g, small);
                xs.push(match g.r.below(8) {
                    0 => leaf(K::Empty, ""),
                    1 => t(K::Decl, "var", vec![t(K::Declarator, "", vec![leaf(K::PatIdent, &fresh("v")), x])]),
                    2 => t(K::Decl, "let", vec![t(K::Declarator, "", vec![leaf(K::PatIdent, &fresh("v")), x])]),
                    3 => block_of(vec![]),
                    _ => stm(x),
                });
            }
            let b = match g.r.below(4) {
                0 => return t(K::Module, "", xs),
                1 => block_of(xs),
                2 => t(K::FnDecl, "", vec![leaf(K::Name, "f"), params(&[]), block_of(xs)]),
                _ => stm(t(K::Arrow, "block", vec![params(&[]), block_of(xs)])),
            };
            return t(K::Module, "", vec![b]);
        }
        1 => {
            for _ in 0..n {
                let f = match g.r.below(3) {
                    0 => t(K::FnDecl, "", vec![leaf(K::Name, &fresh("f")), params(&["p"]), block_of(vec![])]),
                    1 => t(K::ClassDecl, "", vec![leaf(K::Name, &fresh("C")), nil(), t(K::ClassBody, "", vec![])]),
                    _ => t(K::If, "", vec![e(&mut g, small), leaf(K::Empty, ""), nil()]),
                };
                xs.push(f);
            }
            return t(K::Module, "", xs);
        }
        2 => {
            for _ in 0..n {
                let a = fresh("i");
                xs.push(t(K::Import, "m", vec![t(K::ImportDefault, "", vec![leaf(K::Name, &a)])]));
            }
            return t(K::Module, "", xs);
        }
        3 => {
            for _ in 0..n {
                let (a, b) = (fresh("i"), fresh("j"));
                let b = if g.r.chance(1, 2) { a.clone() } else { b };
                xs.push(t(K::ImportSpec, "", vec![leaf(K::Name, &a), leaf(K::Name, &b)]));
            }
            return t(K::Module, "", vec![t(K::Import, "m", xs)]);
        }
        4 | 5 => {
            let d = g.r.chance(1, 2);
            let mut at = g.r.below(n + 1);
            xs.push(e(&mut g, small));
            for _ in 0..n {
                let c = if d && at == 0 { nil() } else { e(&mut g, small) };
                at = at.wrapping_sub(1);
                let mut c = vec![c];
                for _ in 0..g.r.below(3) {
                    let x = e(&mut g, small);
                    c.push(stm(x));
                }
                xs.push(t(K::Case, "", c));
            }
            return t(K::Module, "", vec![t(K::Switch, "", xs)]);
        }
        6 => {
            for _ in 0..n {
                xs.push(e(&mut g, small));
            }
            let s = stm(t(K::Call, "", xs_first(id("f"), xs)));
            return t(K::Module, "", vec![t(K::Switch, "", vec![id("a"), t(K::Case, "", vec![id("b"), s.clone()]), t(K::Case, "", vec![nil(), s])])]);
        }
        7 => {
            let b: Vec<T> = (0..n).map(|_| { let x = e(&mut g, small); stm(x) }).collect();
            xs.push(id("a"));
            let mut c = vec![id("b")];
            c.extend(b);
            xs.push(t(K::Case, "", c));
            return t(K::Module, "", vec![t(K::Switch, "", xs)]);
        }
        8 => {
            let k = *g.r.pick(&["var", "let", "const"]);
            for _ in 0..n.max(1) {
                let x = if k != "const" && g.r.chance(1, 2) { nil() } else { e(&mut g, small) };
                xs.push(t(K::Declarator, "", vec![leaf(K::PatIdent, &fresh("v")), x]));
            }
            let d = t(K::Decl, k, xs);
            return t(K::Module, "", vec![if g.r.chance(1, 3) { t(K::For, "", vec![d, nil(), nil(), leaf(K::Empty, "")]) } else { d }]);
        }
        _ => {}
    }
    let pat = |g: &mut Gen, fresh: &mut dyn FnMut(&str) -> String| {
        let p = leaf(K::PatIdent, &fresh("p"));
        if g.r.chance(1, 5) {
            let x = e(g, small);
            t(K::PatAssign, "", vec![p, x])
        } else {
            p
        }
    };
    let x = match kind {
        9 => {
            for _ in 0..n {
                let x = e(&mut g, small);
                xs.push(if g.r.chance(1, 6) { leaf(K::Void, "") } else if g.r.chance(1, 8) { t(K::Spread, "", vec![x]) } else { x });
            }
            if g.r.chance(3, 4) {
                xs.push(id("z"));
            }
            t(K::Array, "", xs)
        }
        10 | 11 => {
            for _ in 0..n {
                let x = e(&mut g, small);
                xs.push(match g.r.below(8) {
                    0 => leaf(K::PShort, &fresh("s")),
                    1 => t(K::PSpread, "", vec![x]),
                    2 => t(K::PMethod, "", vec![leaf(K::KeyLit, &fresh("m")), t(K::Method, "", vec![nil(), params(&["p"]), block_of(vec![])])]),
                    3 => t(K::PKV, "", vec![t(K::KeyComp, "", vec![x]), id("c")]),
                    _ => t(K::PKV, "", vec![leaf(K::KeyLit, &fresh("k")), x]),
                });
            }
            t(K::Object, "", xs)
        }
        12 | 13 => {
            xs.push(id("f"));
            for _ in 0..n {
                let x = e(&mut g, small);
                xs.push(if g.r.chance(1, 8) { t(K::Spread, "", vec![x]) } else { x });
            }
            let c = t(K::Call, "", xs);
            if kind == 13 { t(K::Prefix, "new", vec![c]) } else { c }
        }
        14 => {
            for _ in 0..n {
                xs.push(leaf(K::Quasi, if small { "q" } else { "a b" }));
                xs.push(e(&mut g, small));
            }
            xs.push(leaf(K::Quasi, ""));
            let x = t(K::Template, "", xs);
            if g.r.chance(1, 3) { t(K::Tagged, "", vec![id("t"), x]) } else { x }
        }
        15 => {
            for _ in 0..n.max(2) {
                xs.push(e(&mut g, small));
            }
            t(K::Seq, "", xs)
        }
        16 | 17 => {
            for _ in 0..n {
                xs.push(pat(&mut g, &mut fresh));
            }
            let ps = t(K::Params, "", xs);
            if kind == 16 { t(K::FnExpr, "", vec![nil(), ps, block_of(vec![])]) } else { t(K::Arrow, "expr", vec![ps, id("a")]) }
        }
        18 | 19 => {
            for _ in 0..n {
                let st = if g.r.chance(1, 4) { "static " } else { "" };
                let key = leaf(K::KeyLit, &fresh("k"));
                xs.push(match g.r.below(5) {
                    0 => {
                        let x = e(&mut g, small);
                        t(K::CField, st.trim(), vec![key, x])
                    }
                    1 => t(K::CMethod, &format!("{}get", st), vec![key, t(K::Method, "", vec![nil(), params(&[]), block_of(vec![])])]),
                    2 => t(K::CMethod, &format!("{}set", st), vec![key, t(K::Method, "", vec![nil(), params(&["p"]), block_of(vec![])])]),
                    _ => t(K::CMethod, &format!("{}method", st), vec![key, t(K::Method, "", vec![nil(), params(&[]), block_of(vec![])])]),
                });
            }
            t(K::ClassExpr, "", vec![nil(), nil(), t(K::ClassBody, "", xs)])
        }
        20 | 21 => {
            let arr = kind == 20;
            for _ in 0..n {
                if arr && g.r.chance(1, 6) {
                    xs.push(leaf(K::PatVoid, ""));
                    continue;
                }
                let p = pat(&mut g, &mut fresh);
                xs.push(if arr {
                    p
                } else if p.is(K::PatIdent) {
                    leaf(K::PShort, &p.s)
                } else {
                    let (a, b) = (id(&p.c[0].s), p.c[1].clone());
                    t(K::PKV, "", vec![leaf(K::KeyLit, "k"), t(K::Binary, "=", vec![a, b])])
                });
            }
            if arr {
                xs.push(leaf(K::PatIdent, "z"));
            }
            let p = t(if arr { K::PatArr } else { K::PatObj }, "", xs);
            return t(K::Module, "", vec![t(K::Decl, "let", vec![t(K::Declarator, "", vec![p, id("q")])])]);
        }
        // chains nest in the tree, so they stay shorter
        22 => {
            let mut x = id("a");
            for _ in 0..n.min(260) {
                x = match g.r.below(4) {
                    0 => t(K::CMember, "", vec![x, id("b")]),
                    1 => t(K::Call, "", vec![x, id("c")]),
                    _ => t(K::Member, "", vec![x, leaf(K::Name, "d")]),
                };
            }
            x
        }
        23 => {
            let op = *g.r.pick(BINOPS);
            let mut x = id("a");
            for _ in 0..n.min(260) {
                let y = e(&mut g, true);
                x = if op == "**" { t(K::Binary, op, vec![y, x]) } else { t(K::Binary, op, vec![x, y]) };
            }
            x
        }
        24 => {
            let mut x = id("a");
            for _ in 0..n.min(200) {
                let y = e(&mut g, true);
                x = t(K::Cond, "", vec![y, id("b"), x]);
            }
            x
        }
        25 => {
            let mut x = stm(id("a"));
            for _ in 0..n.min(200) {
                let y = e(&mut g, true);
                x = t(K::If, "", vec![y, if g.r.chance(1, 2) { stm(id("b")) } else { block_of(vec![]) }, x]);
            }
            return t(K::Module, "", vec![x]);
        }
        26 => {
            // a long token
            let w: String = (0..n.max(1)).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            match g.r.below(9) {
                0 => id(&format!("${}", w)),
                1 => leaf(K::LitStr, &format!("'{}'", w)),
                2 => leaf(K::LitStr, &format!("\"{}\"", w.replace('e', "\\n"))),
                3 => leaf(K::LitRe, &format!("/{}/g", w)),
                4 => t(K::Template, "", vec![leaf(K::Quasi, &w), id("a"), leaf(K::Quasi, &w.replace('b', "\n"))]),
                5 => leaf(K::LitNum, &format!("1{}", w.chars().map(|c| ((c as u8 - b'a') % 10 + b'0') as char).take(300).collect::<String>())),
                6 => leaf(K::LitNum, &format!("0.{}", w.chars().map(|c| ((c as u8 - b'a') % 10 + b'0') as char).collect::<String>())),
                7 => t(K::Object, "", vec![t(K::PKV, "", vec![leaf(K::KeyLit, &format!("${}", w)), id("a")])]),
                _ => t(K::Member, "", vec![id("a"), leaf(K::Name, &format!("${}", w))]),
            }
        }
        _ => {
            let m = n.min(200);
            let mut x = id("a");
            for _ in 0..m {
                x = t(K::Binary, "=", vec![id("b"), x]);
            }
            x
        }
    };
    t(K::Module, "", vec![stm(x)])
}

fn xs_first(f: T, xs: Vec<T>) -> Vec<T> {
    let mut v = vec![f];
    v.extend(xs);
    v
}

/// Programs people wrote (`--trees`); when there are any they take the place of generated ones.
pub static CORPUS: std::sync::OnceLock<Vec<T>> = std::sync::OnceLock::new();

/// Names that mean something to somebody
const FAMOUS: &[&str] = &[
    "arguments", "eval", "async", "await", "of", "__proto__", "NaN", "Infinity", "prototype", "hasOwnProperty", "toString", "valueOf", "length", "name", "module", "exports", "require", "window",
    "Object", "Symbol", "Math", "JSON", "console", "then", "call", "apply", "bind", "type", "start", "end", "id", "key", "value", "kind", "body", "label", "on", "use", "strict", "target", "meta",
];

/// One of the names of the program becomes a famous one, wherever it stands
pub fn famous(r: &mut Rng, tree: &mut T) {
    if !r.chance(1, 12) || CORPUS.get().is_some() {
        return;
    }
    let mut names = vec![];
    tree.walk(&mut |x| {
        if matches!(x.k, K::Ident | K::PatIdent | K::Name) && NAMES.contains(&x.s.as_str()) && !matches!(x.s.as_str(), "constructor" | "target" | "get" | "set" | "as" | "from") {
            names.push(x.s.clone());
        }
    });
    if names.is_empty() {
        return;
    }
    let old = r.pick(&names).clone();
    let new = *r.pick(FAMOUS);
    let mut taken = false;
    tree.walk(&mut |x| taken |= x.s == new);
    if taken {
        return;
    }
    tree.walk_mut(&mut |x| {
        if !matches!(x.k, K::LitStr | K::LitRe | K::Quasi | K::Import) && x.s == old {
            x.s = new.to_string();
        }
    });
}

/// The standard mix: every pair, then triples, chains, towers, lists, random programs, now and then a large one.
pub fn program(r: &mut Rng, idx: u64, big: bool) -> T {
    if let Some(c) = CORPUS.get() {
        return c[(idx % c.len() as u64) as usize].clone();
    }
    let n = pair_count() as u64;
    if idx < n {
        return pair(idx as usize);
    }
    if idx < n + stmt_pair_count() as u64 {
        return stmt_pair((idx - n) as usize).unwrap();
    }
    if idx % 6 == 0 {
        let i = if r.chance(1, 2) { idx / 6 } else { r.next() >> 24 };
        return triple(i);
    }
    match r.below(400) {
        0 => {
            let d = if big && r.chance(1, 8) { r.range(60, 280) } else { r.range(5, 60) };
            tower(r, d)
        }
        1 => {
            let d = if big && r.chance(1, 8) { r.range(60, 280) } else { r.range(5, 60) };
            stmt_tower(r, d)
        }
        2 if big => {
            // a program larger than one arena block
            let mut g = Gen::new(r, 6000, Profile::default());
            let mut c = vec![];
            while g.budget > 0 {
                c.push(g.item());
            }
            t(K::Module, "", c)
        }
        3 | 4 if big => wide(r),
        5..=60 => {
            let d = r.range(1, 3);
            chain(r, d)
        }
        61..=66 => runs(r),
        k => {
            let b = r.range(1, if k < 75 { 300 } else { 70 });
            let imports = r.chance(1, 12);
            let import_calls = r.chance(1, 16);
            let few_names = r.chance(1, 6);
            Gen::new(r, b, Profile { imports, import_calls, few_names, ..Default::default() }).program()
        }
    }
}

/// The i-th (parent, child) pair program.
pub fn pair(i: usize) -> T {
    thread_local! {
        static P: Vec<Mk> = parents();
        static C: Vec<T> = children();
    }
    P.with(|p| C.with(|c| p[(i / c.len()) % p.len()](c[i % c.len()].clone())))
}
