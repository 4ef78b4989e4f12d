//! Independent reference printer: model tree -> token stream -> source text, with the exact byte span
//! of every node. Parentheses come from the ECMAScript grammar (expression levels below), never from
//! the code under test.
use crate::rng::Rng;
use crate::tree::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub s: String,
    /// grouping parenthesis (belongs to no node)
    pub group: bool,
    /// statement terminator that automatic semicolon insertion may replace
    pub semi: Semi,
    /// no line terminator may come before this token
    pub no_nl: bool,
    /// no comment before this token (between `.` and a name the subset has white space only)
    pub no_comment: bool,
    /// template continuation: this token starts inside a template (after `}`)
    pub kind: TK,
    pub start: u32,
    pub end: u32,
    /// number of line terminators in the trivia before the token
    pub nl_before: bool,
    pub dropped: bool,
    /// closes the body of an arrow function, which no operator can be applied to
    pub arrow: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Semi {
    No,
    /// droppable before a line terminator, `}` or the end
    Optional,
    /// do-while: droppable anywhere
    Free,
    /// after a bare `return` / `break` / `continue`: any following line terminator ends the statement
    Restricted,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TK {
    Word,
    Punct,
    Num,
    Str,
    Regex,
    /// whole template without substitutions
    TplWhole,
    TplHead,
    TplMiddle,
    TplTail,
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// chance in 1/100 of a redundant parenthesis around an expression
    pub parens: usize,
    /// use optional spellings (trailing commas, arrow parens, dropped `;`…)
    pub variety: bool,
}

pub struct Printer<'r> {
    r: &'r mut Rng,
    style: Style,
    pub toks: Vec<Tok>,
    no_in: bool,
    pending_no_nl: bool,
    pending_no_comment: bool,
}

pub const P_SEQ: u8 = 0;
pub const P_ASSIGN: u8 = 1;
pub const P_COND: u8 = 2;
pub const P_UNARY: u8 = 14;
pub const P_UPDATE: u8 = 15;
pub const P_CALL: u8 = 16;
pub const P_NEW: u8 = 17;
pub const P_MEMBER: u8 = 18;
pub const P_PRIMARY: u8 = 19;

pub fn binop_prec(op: &str) -> u8 {
    match op {
        "||" => 3,
        "&&" => 4,
        "|" => 5,
        "^" => 6,
        "&" => 7,
        "==" | "!=" | "===" | "!==" => 8,
        "<" | ">" | "<=" | ">=" | "instanceof" | "in" => 9,
        "<<" | ">>" | ">>>" => 10,
        "+" | "-" => 11,
        "*" | "/" | "%" => 12,
        "**" => 13,
        _ => P_ASSIGN,
    }
}

/// Does the left spine (member objects, tags) start at a call?
fn call_spine(x: &T) -> bool {
    match x.k {
        K::Call => true,
        K::Member | K::CMember | K::Tagged => call_spine(&x.c[0]),
        _ => false,
    }
}

pub fn prec(x: &T) -> u8 {
    match x.k {
        K::Seq => P_SEQ,
        K::Arrow => P_ASSIGN,
        K::Cond => P_COND,
        K::Binary => binop_prec(&x.s),
        K::Prefix => match x.s.as_str() {
            "new" => {
                if x.c[0].is(K::Call) {
                    P_MEMBER
                } else {
                    P_NEW
                }
            }
            "++" | "--" => P_UPDATE,
            _ => P_UNARY,
        },
        K::Postfix => P_UPDATE,
        K::Call => P_CALL,
        K::Member | K::CMember | K::Tagged => {
            if call_spine(x) {
                P_CALL
            } else {
                P_MEMBER
            }
        }
        _ => P_PRIMARY,
    }
}

impl<'r> Printer<'r> {
    pub fn new(r: &'r mut Rng, style: Style) -> Self {
        Printer { r, style, toks: vec![], no_in: false, pending_no_nl: false, pending_no_comment: false }
    }

    fn variety(&mut self, num: usize, den: usize) -> bool {
        self.style.variety && self.r.chance(num, den)
    }

    fn push(&mut self, s: &str, kind: TK) -> usize {
        let no_nl = std::mem::replace(&mut self.pending_no_nl, false);
        let no_comment = std::mem::replace(&mut self.pending_no_comment, false);
        self.toks.push(Tok {
            s: s.to_string(),
            group: false,
            semi: Semi::No,
            no_nl,
            no_comment,
            kind,
            start: 0,
            end: 0,
            nl_before: false,
            dropped: false,
            arrow: false,
        });
        self.toks.len() - 1
    }
    fn p(&mut self, s: &str) {
        self.push(s, TK::Punct);
    }
    fn w(&mut self, s: &str) {
        self.push(s, TK::Word);
    }
    fn gp(&mut self, s: &str) {
        let i = self.push(s, TK::Punct);
        self.toks[i].group = true;
    }
    fn semi(&mut self) {
        let i = self.push(";", TK::Punct);
        self.toks[i].semi = Semi::Optional;
    }
    fn op(&mut self, s: &str) {
        if s.as_bytes()[0].is_ascii_alphabetic() {
            self.w(s)
        } else {
            self.p(s)
        }
    }

    /// Set the node's token range from everything emitted since `b`, ignoring grouping parentheses.
    fn hull(&self, n: &mut T, b: usize) {
        let e = self.toks.len();
        let mut lo = b;
        while lo < e && self.toks[lo].group {
            lo += 1;
        }
        let mut hi = e;
        while hi > lo && self.toks[hi - 1].group {
            hi -= 1;
        }
        n.start = lo as u32;
        n.end = hi as u32; // exclusive token index
    }

    pub fn module(&mut self, n: &mut T) {
        for s in &mut n.c {
            self.stmt(s);
        }
    }

    fn here(&self) -> usize {
        self.toks.len()
    }

    // ------------------------------------------------------------- statements

    fn paren_expr(&mut self, e: &mut T) {
        self.p("(");
        let was = std::mem::replace(&mut self.no_in, false);
        self.expr(e, P_SEQ);
        self.no_in = was;
        self.p(")");
    }

    fn name(&mut self, n: &mut T) {
        let b = self.here();
        let s = n.s.clone();
        self.w(&s);
        self.hull(n, b);
    }

    pub fn block(&mut self, n: &mut T) {
        let was = std::mem::replace(&mut self.no_in, false);
        let b = self.here();
        self.p("{");
        for s in &mut n.c {
            self.stmt(s);
        }
        self.p("}");
        self.hull(n, b);
        self.no_in = was;
    }

    fn decl(&mut self, n: &mut T) {
        let b = self.here();
        let k = n.s.clone();
        self.w(&k);
        let len = n.c.len();
        for (i, d) in n.c.iter_mut().enumerate() {
            let db = self.here();
            let (l, r) = d.c.split_at_mut(1);
            self.pat(&mut l[0]);
            if !r[0].is(K::Nil) {
                self.p("=");
                self.expr(&mut r[0], P_ASSIGN);
            }
            self.hull(d, db);
            if i + 1 < len {
                self.p(",");
            }
        }
        self.hull(n, b);
    }

    fn stmt(&mut self, n: &mut T) {
        let b = self.here();
        match n.k {
            K::Empty => {
                self.p(";");
                self.hull(n, b);
            }
            K::Debugger => {
                self.w("debugger");
                self.hull(n, b);
                self.semi();
            }
            K::ExprStmt => {
                let was = std::mem::replace(&mut self.no_in, false);
                self.expr_stmt(&mut n.c[0]);
                self.no_in = was;
                self.hull(n, b);
                self.semi();
            }
            K::Decl => {
                self.decl(n);
                self.semi();
            }
            K::Return => {
                self.w("return");
                if !n.c[0].is(K::Nil) {
                    self.pending_no_nl = true;
                    self.expr(&mut n.c[0], P_SEQ);
                }
                self.hull(n, b);
                let bare = n.c[0].is(K::Nil);
                self.semi();
                if bare {
                    self.toks.last_mut().unwrap().semi = Semi::Restricted;
                }
            }
            K::Throw => {
                self.w("throw");
                self.pending_no_nl = true;
                self.expr(&mut n.c[0], P_SEQ);
                self.hull(n, b);
                self.semi();
            }
            K::Break | K::Continue => {
                self.w(if n.k == K::Break { "break" } else { "continue" });
                if !n.c[0].is(K::Nil) {
                    self.pending_no_nl = true;
                    self.name(&mut n.c[0]);
                }
                self.hull(n, b);
                let bare = n.c[0].is(K::Nil);
                self.semi();
                if bare {
                    self.toks.last_mut().unwrap().semi = Semi::Restricted;
                }
            }
            K::If => {
                self.w("if");
                self.paren_expr(&mut n.c[0]);
                self.stmt(&mut n.c[1]);
                if !n.c[2].is(K::Nil) {
                    self.w("else");
                    self.stmt(&mut n.c[2]);
                }
                self.hull(n, b);
                n.end = self.body_end(if n.c[2].is(K::Nil) { &n.c[1] } else { &n.c[2] });
            }
            K::While => {
                self.w("while");
                self.paren_expr(&mut n.c[0]);
                self.stmt(&mut n.c[1]);
                self.hull(n, b);
                n.end = self.body_end(&n.c[1]);
            }
            K::Do => {
                self.w("do");
                self.stmt(&mut n.c[0]);
                self.w("while");
                self.paren_expr(&mut n.c[1]);
                self.hull(n, b);
                let i = self.push(";", TK::Punct);
                self.toks[i].semi = Semi::Free;
            }
            K::For => {
                self.w("for");
                self.p("(");
                self.no_in = true;
                if n.c[0].is(K::Decl) {
                    self.decl(&mut n.c[0]);
                } else if !n.c[0].is(K::Nil) {
                    self.expr(&mut n.c[0], P_SEQ);
                }
                self.no_in = false;
                self.p(";");
                if !n.c[1].is(K::Nil) {
                    self.expr(&mut n.c[1], P_SEQ);
                }
                self.p(";");
                if !n.c[2].is(K::Nil) {
                    self.expr(&mut n.c[2], P_SEQ);
                }
                self.p(")");
                self.stmt(&mut n.c[3]);
                self.hull(n, b);
                n.end = self.body_end(&n.c[3]);
            }
            K::ForIn | K::ForOf => {
                self.w("for");
                self.p("(");
                self.no_in = true;
                if n.c[0].is(K::Decl) {
                    self.decl(&mut n.c[0]);
                } else if n.c[0].is(K::Object) || n.c[0].is(K::Array) {
                    self.raw(&mut n.c[0]);
                } else {
                    self.target(&mut n.c[0]);
                }
                self.no_in = false;
                let is_in = n.k == K::ForIn;
                self.w(if is_in { "in" } else { "of" });
                self.expr(&mut n.c[1], if is_in { P_SEQ } else { P_ASSIGN });
                self.p(")");
                self.stmt(&mut n.c[2]);
                self.hull(n, b);
                n.end = self.body_end(&n.c[2]);
            }
            K::Try => {
                self.w("try");
                self.block(&mut n.c[0]);
                if n.c[1].is(K::Catch) {
                    let hb = self.here();
                    self.w("catch");
                    self.p("(");
                    let h = &mut n.c[1];
                    let (l, r) = h.c.split_at_mut(1);
                    self.pat(&mut l[0]);
                    self.p(")");
                    self.block(&mut r[0]);
                    self.hull(h, hb);
                }
                if n.c[2].is(K::Block) {
                    self.w("finally");
                    self.block(&mut n.c[2]);
                }
                self.hull(n, b);
            }
            K::Block => self.block(n),
            K::Labeled => {
                let l = n.s.clone();
                self.w(&l);
                self.p(":");
                self.stmt(&mut n.c[0]);
                self.hull(n, b);
                n.end = self.body_end(&n.c[0]);
            }
            K::Switch => {
                self.w("switch");
                let (d, cases) = n.c.split_at_mut(1);
                self.paren_expr(&mut d[0]);
                self.p("{");
                for c in cases {
                    let cb = self.here();
                    if c.c[0].is(K::Nil) {
                        self.w("default");
                    } else {
                        self.w("case");
                        self.expr(&mut c.c[0], P_SEQ);
                    }
                    self.p(":");
                    for s in &mut c.c[1..] {
                        self.stmt(s);
                    }
                    self.hull(c, cb);
                    if c.c.len() > 1 {
                        let last = c.c.len() - 1;
                        c.end = self.body_end(&c.c[last]);
                    }
                }
                self.p("}");
                self.hull(n, b);
            }
            K::Import => self.import(n),
            K::FnDecl => self.func(n, "function"),
            K::ClassDecl => self.class(n),
            _ => panic!("not a statement: {:?}", n.k),
        }
    }

    /// A statement that ends in another statement ends where that one ends (its `;` belongs to neither).
    fn body_end(&self, s: &T) -> u32 {
        s.end
    }

    fn import(&mut self, n: &mut T) {
        let b = self.here();
        self.w("import");
        let mut named_open = false;
        let len = n.c.len();
        for i in 0..len {
            let sb = self.here();
            match n.c[i].k {
                K::ImportDefault => {
                    self.name(&mut n.c[i].c[0]);
                    self.hull(&mut n.c[i], sb);
                }
                K::ImportNs => {
                    self.p("*");
                    self.w("as");
                    self.name(&mut n.c[i].c[0]);
                    self.hull(&mut n.c[i], sb);
                }
                _ => {
                    if !named_open {
                        self.p("{");
                        named_open = true;
                    }
                    let sb = self.here();
                    self.name(&mut n.c[i].c[0]);
                    if n.c[i].c[0].s != n.c[i].c[1].s || self.variety(1, 12) {
                        self.w("as");
                        self.name(&mut n.c[i].c[1]);
                    } else {
                        n.c[i].c[1].start = n.c[i].c[0].start;
                        n.c[i].c[1].end = n.c[i].c[0].end;
                    }
                    self.hull(&mut n.c[i], sb);
                }
            }
            if i + 1 < len || named_open && self.variety(1, 12) {
                self.p(",");
            }
        }
        // nothing in braces imports nothing
        let nothing = (len == 0 || len == 1 && n.c[0].is(K::ImportDefault)) && self.variety(1, 12);
        if nothing {
            if len == 1 {
                self.p(",");
            }
            self.p("{");
            named_open = true;
        }
        if named_open {
            self.p("}");
        }
        if len > 0 || nothing {
            self.w("from");
        }
        let q = if n.s.contains('"') { '\'' } else if n.s.contains('\'') || self.variety(1, 2) { '"' } else { '\'' };
        let s = format!("{}{}{}", q, n.s, q);
        self.push(&s, TK::Str);
        self.hull(n, b);
        self.semi();
    }

    // ------------------------------------------------------------- functions, classes

    fn params(&mut self, n: &mut T) {
        let was = std::mem::replace(&mut self.no_in, false);
        let b = self.here();
        self.p("(");
        let len = n.c.len();
        for i in 0..len {
            self.pat(&mut n.c[i]);
            if i + 1 < len {
                self.p(",");
            } else if !n.c[i].is(K::PatRest) && self.variety(1, 12) {
                self.p(",");
            }
        }
        self.p(")");
        self.hull(n, b);
        self.no_in = was;
    }

    fn func(&mut self, n: &mut T, kw: &str) {
        let b = self.here();
        if !kw.is_empty() {
            self.w(kw);
        }
        if n.s == "*" {
            self.p("*");
        }
        if !n.c[0].is(K::Nil) {
            self.name(&mut n.c[0]);
        }
        self.params(&mut n.c[1]);
        self.block(&mut n.c[2]);
        self.hull(n, b);
    }

    fn class(&mut self, n: &mut T) {
        let was = std::mem::replace(&mut self.no_in, false);
        let b = self.here();
        self.w("class");
        if !n.c[0].is(K::Nil) {
            self.name(&mut n.c[0]);
        }
        if !n.c[1].is(K::Nil) {
            self.w("extends");
            // the heritage is a LeftHandSideExpression
            self.expr(&mut n.c[1], P_CALL);
        }
        let bb = self.here();
        self.p("{");
        for m in &mut n.c[2].c {
            let mb = self.here();
            let s = m.s.clone();
            if s.starts_with("static") {
                self.w("static");
            }
            if s.ends_with("get") {
                self.w("get");
            }
            if s.ends_with("set") {
                self.w("set");
            }
            let (l, r) = m.c.split_at_mut(1);
            self.key(&mut l[0]);
            if m.k == K::CMethod {
                self.func(&mut r[0], "");
                self.hull(m, mb);
                if self.variety(1, 10) {
                    self.p(";");
                }
            } else {
                self.p("=");
                self.expr(&mut r[0], P_ASSIGN);
                self.hull(m, mb);
                self.semi();
            }
        }
        self.p("}");
        self.hull(&mut n.c[2], bb);
        self.hull(n, b);
        self.no_in = was;
    }

    fn key(&mut self, n: &mut T) {
        let b = self.here();
        match n.k {
            K::KeyComp => {
                let was = std::mem::replace(&mut self.no_in, false);
                self.p("[");
                self.expr(&mut n.c[0], P_ASSIGN);
                self.p("]");
                self.no_in = was;
            }
            _ => {
                let s = n.s.clone();
                let k = match s.as_bytes()[0] {
                    b'\'' | b'"' => TK::Str,
                    b'0'..=b'9' | b'.' => TK::Num,
                    _ => TK::Word,
                };
                self.push(&s, k);
            }
        }
        self.hull(n, b);
    }

    // ------------------------------------------------------------- patterns

    fn pat(&mut self, n: &mut T) {
        let b = self.here();
        match n.k {
            K::PatIdent => {
                let s = n.s.clone();
                self.w(&s);
            }
            K::PatVoid => {}
            K::PatRest => {
                self.p("...");
                self.name(&mut n.c[0]);
            }
            K::PatAssign => {
                let (l, r) = n.c.split_at_mut(1);
                self.pat(&mut l[0]);
                self.p("=");
                self.expr(&mut r[0], P_ASSIGN);
            }
            K::PatArr => {
                let was = std::mem::replace(&mut self.no_in, false);
                self.p("[");
                let len = n.c.len();
                for i in 0..len {
                    self.pat(&mut n.c[i]);
                    if i + 1 < len || n.c[i].is(K::PatVoid) || self.variety(1, 12) {
                        self.p(",");
                    }
                }
                self.p("]");
                self.no_in = was;
            }
            K::PatObj => {
                let was = std::mem::replace(&mut self.no_in, false);
                self.p("{");
                self.pattern_props(&mut n.c);
                self.p("}");
                self.no_in = was;
            }
            _ => panic!("not a pattern: {:?}", n.k),
        }
        self.hull(n, b);
    }

    fn pattern_props(&mut self, c: &mut [T]) {
        let len = c.len();
        for i in 0..len {
            let b = self.here();
            let p = &mut c[i];
            let mut rest = false;
            match p.k {
                K::PShort => {
                    let s = p.s.clone();
                    self.w(&s);
                }
                K::PSpread => {
                    rest = true;
                    self.p("...");
                    self.raw(&mut p.c[0]);
                }
                _ => {
                    let (l, r) = p.c.split_at_mut(1);
                    self.key(&mut l[0]);
                    self.p(":");
                    self.raw(&mut r[0]);
                }
            }
            self.hull(p, b);
            if i + 1 < len || (!rest && self.variety(1, 12)) {
                self.p(",");
            }
        }
    }

    /// A destructuring pattern in expression notation: no parentheses around the pattern parts
    fn raw(&mut self, n: &mut T) {
        let b = self.here();
        match n.k {
            K::Array => {
                let was = std::mem::replace(&mut self.no_in, false);
                self.p("[");
                let len = n.c.len();
                for i in 0..len {
                    let cb = self.here();
                    let mut rest = false;
                    match n.c[i].k {
                        K::Void => {}
                        K::Spread => {
                            rest = true;
                            self.p("...");
                            self.raw(&mut n.c[i].c[0]);
                            self.hull(&mut n.c[i], cb);
                        }
                        _ => self.raw(&mut n.c[i]),
                    }
                    if i + 1 < len || n.c[i].is(K::Void) || (!rest && self.variety(1, 12)) {
                        self.p(",");
                    }
                }
                self.p("]");
                self.no_in = was;
            }
            K::Object => {
                let was = std::mem::replace(&mut self.no_in, false);
                self.p("{");
                self.pattern_props(&mut n.c);
                self.p("}");
                self.no_in = was;
            }
            K::Binary => {
                let (l, r) = n.c.split_at_mut(1);
                self.raw(&mut l[0]);
                self.p("=");
                self.expr(&mut r[0], P_ASSIGN);
            }
            _ => {
                // identifier or member target
                self.expr_noparen(n);
                return;
            }
        }
        self.hull(n, b);
    }

    /// Simple assignment target; `(a.b) = 1` is legal, so redundant parentheses may appear
    fn target(&mut self, n: &mut T) {
        self.expr(n, P_CALL);
    }

    // ------------------------------------------------------------- expressions

    fn expr_stmt(&mut self, n: &mut T) {
        // an expression statement may not start with `{`, `function`, `class` (nor `let [`)
        let tb = self.here();
        let save = self.r.clone();
        self.expr(n, P_SEQ);
        let first = &self.toks[tb];
        if matches!(first.s.as_str(), "{" | "function" | "class") && first.kind != TK::Str {
            // print again, with parentheres around the whole
            self.toks.truncate(tb);
            *self.r = save;
            self.gp("(");
            self.expr(n, P_SEQ);
            self.gp(")");
        }
    }

    fn arrow_body_expr(&mut self, n: &mut T) {
        let tb = self.here();
        let save = self.r.clone();
        self.expr(n, P_ASSIGN);
        if self.toks[tb].s == "{" {
            self.toks.truncate(tb);
            *self.r = save;
            self.gp("(");
            let was = std::mem::replace(&mut self.no_in, false);
            self.expr(n, P_ASSIGN);
            self.no_in = was;
            self.gp(")");
        }
    }

    pub fn expr(&mut self, n: &mut T, min: u8) {
        let need = prec(n) < min || (self.no_in && n.k == K::Binary && n.s == "in");
        let extra = self.style.parens > 0 && self.r.below(100) < self.style.parens && !begins_with_import(n);
        if need || extra {
            let was = std::mem::replace(&mut self.no_in, false);
            let twice = self.style.variety && self.r.chance(1, 20);
            self.gp("(");
            if twice {
                self.gp("(");
            }
            self.expr_noparen(n);
            if twice {
                self.gp(")");
            }
            self.gp(")");
            self.no_in = was;
        } else {
            self.expr_noparen(n);
        }
    }

    fn list(&mut self, c: &mut [T], trailing: bool) {
        let was = std::mem::replace(&mut self.no_in, false);
        let len = c.len();
        for i in 0..len {
            let b = self.here();
            match c[i].k {
                K::Void => {}
                K::Spread => {
                    self.p("...");
                    self.expr(&mut c[i].c[0], P_ASSIGN);
                    self.hull(&mut c[i], b);
                }
                _ => self.expr(&mut c[i], P_ASSIGN),
            }
            if i + 1 < len || c[i].is(K::Void) || (trailing && self.variety(1, 12)) {
                self.p(",");
            }
        }
        self.no_in = was;
    }

    fn template(&mut self, n: &mut T) {
        let was = std::mem::replace(&mut self.no_in, false);
        let b = self.here();
        let len = n.c.len();
        if len == 1 {
            let s = format!("`{}`", n.c[0].s);
            self.push(&s, TK::TplWhole);
            n.c[0].start = b as u32;
            n.c[0].end = b as u32 + 1;
        } else {
            for i in 0..len {
                if n.c[i].is(K::Quasi) {
                    let (s, k) = if i == 0 {
                        (format!("`{}${{", n.c[i].s), TK::TplHead)
                    } else if i + 1 == len {
                        (format!("}}{}`", n.c[i].s), TK::TplTail)
                    } else {
                        (format!("}}{}${{", n.c[i].s), TK::TplMiddle)
                    };
                    let j = self.push(&s, k);
                    n.c[i].start = j as u32;
                    n.c[i].end = j as u32 + 1;
                } else {
                    self.expr(&mut n.c[i], P_SEQ);
                }
            }
        }
        self.hull(n, b);
        self.no_in = was;
    }

    fn expr_noparen(&mut self, n: &mut T) {
        let b = self.here();
        match n.k {
            K::This => self.w("this"),
            K::Ident => {
                let s = n.s.clone();
                self.w(&s)
            }
            K::LitUndefined => self.w("undefined"),
            K::LitNull => self.w("null"),
            K::LitTrue => self.w("true"),
            K::LitFalse => self.w("false"),
            K::LitNum | K::LitBin => {
                let s = n.s.clone();
                self.push(&s, TK::Num);
            }
            K::LitStr => {
                let s = n.s.clone();
                self.push(&s, TK::Str);
            }
            K::LitRe => {
                let s = n.s.clone();
                self.push(&s, TK::Regex);
            }
            K::Seq => {
                let len = n.c.len();
                for i in 0..len {
                    self.expr(&mut n.c[i], P_ASSIGN);
                    if i + 1 < len {
                        self.p(",");
                    }
                }
            }
            K::Array => {
                self.p("[");
                let trailing = !n.c.is_empty();
                self.list(&mut n.c, trailing);
                self.p("]");
            }
            K::Object => {
                let was = std::mem::replace(&mut self.no_in, false);
                self.p("{");
                let len = n.c.len();
                for i in 0..len {
                    let pb = self.here();
                    let p = &mut n.c[i];
                    match p.k {
                        K::PShort => {
                            let s = p.s.clone();
                            self.w(&s);
                        }
                        K::PSpread => {
                            self.p("...");
                            self.expr(&mut p.c[0], P_ASSIGN);
                        }
                        K::PKV => {
                            let (l, r) = p.c.split_at_mut(1);
                            self.key(&mut l[0]);
                            self.p(":");
                            self.expr(&mut r[0], P_ASSIGN);
                        }
                        _ => {
                            let (l, r) = p.c.split_at_mut(1);
                            self.key(&mut l[0]);
                            self.func(&mut r[0], "");
                        }
                    }
                    self.hull(p, pb);
                    if i + 1 < len || self.variety(1, 12) {
                        self.p(",");
                    }
                }
                self.p("}");
                self.no_in = was;
            }
            K::Member => {
                let (l, r) = n.c.split_at_mut(1);
                self.object(&mut l[0]);
                self.p(".");
                self.pending_no_comment = true;
                self.name(&mut r[0]);
            }
            K::CMember => {
                let (l, r) = n.c.split_at_mut(1);
                self.object(&mut l[0]);
                self.p("[");
                let was = std::mem::replace(&mut self.no_in, false);
                self.expr(&mut r[0], P_SEQ);
                self.no_in = was;
                self.p("]");
            }
            K::Meta => {
                let (l, r) = n.c.split_at_mut(1);
                self.name(&mut l[0]);
                self.p(".");
                self.pending_no_comment = true;
                self.name(&mut r[0]);
            }
            K::Call => {
                let (l, r) = n.c.split_at_mut(1);
                self.object(&mut l[0]);
                self.p("(");
                let trailing = !r.is_empty();
                self.list(r, trailing);
                self.p(")");
            }
            K::Prefix if n.s == "new" => {
                self.w("new");
                if n.c[0].is(K::Call) {
                    let call = &mut n.c[0];
                    let cb = self.here();
                    let (l, r) = call.c.split_at_mut(1);
                    self.expr(&mut l[0], P_MEMBER);
                    self.p("(");
                    let trailing = !r.is_empty();
                    self.list(r, trailing);
                    self.p(")");
                    self.hull(call, cb);
                } else {
                    self.expr(&mut n.c[0], P_NEW);
                }
            }
            K::Prefix => {
                let op = n.s.clone();
                self.op(&op);
                if op == "++" || op == "--" {
                    self.target(&mut n.c[0]);
                } else {
                    self.expr(&mut n.c[0], P_UNARY);
                }
            }
            K::Postfix => {
                self.target(&mut n.c[0]);
                self.pending_no_nl = true;
                let op = n.s.clone();
                self.p(&op);
            }
            K::Binary => {
                let op = n.s.clone();
                let p = binop_prec(&op);
                let (l, r) = n.c.split_at_mut(1);
                if p == P_ASSIGN {
                    if l[0].is(K::Array) || l[0].is(K::Object) {
                        self.raw(&mut l[0]);
                    } else {
                        self.target(&mut l[0]);
                    }
                    self.p(&op);
                    self.expr(&mut r[0], P_ASSIGN);
                } else if op == "**" {
                    self.expr(&mut l[0], P_UPDATE);
                    self.p(&op);
                    self.expr(&mut r[0], 13);
                } else {
                    self.expr(&mut l[0], p);
                    self.op(&op);
                    self.expr(&mut r[0], p + 1);
                }
            }
            K::Cond => {
                let (l, r) = n.c.split_at_mut(1);
                self.expr(&mut l[0], 3);
                self.p("?");
                let was = std::mem::replace(&mut self.no_in, false);
                self.expr(&mut r[0], P_ASSIGN);
                self.no_in = was;
                self.p(":");
                self.expr(&mut r[1], P_ASSIGN);
            }
            K::Template => return self.template(n),
            K::Tagged => {
                let (l, r) = n.c.split_at_mut(1);
                self.object(&mut l[0]);
                self.template(&mut r[0]);
            }
            K::Arrow => {
                let (l, r) = n.c.split_at_mut(1);
                let simple = l[0].c.len() == 1 && l[0].c[0].is(K::PatIdent);
                if simple && !self.variety(1, 3) {
                    self.pat(&mut l[0].c[0]);
                } else {
                    // no trailing comma: the subset has none in arrow parameters
                    let v = self.style.variety;
                    self.style.variety = false;
                    self.params(&mut l[0]);
                    self.style.variety = v;
                }
                self.pending_no_nl = true;
                self.p("=>");
                if n.s == "expr" {
                    self.arrow_body_expr(&mut r[0]);
                } else {
                    self.block(&mut r[0]);
                    self.toks.last_mut().unwrap().arrow = true;
                }
            }
            K::FnExpr => return self.func(n, "function"),
            K::ClassExpr => return self.class(n),
            _ => panic!("not an expression: {:?}", n.k),
        }
        self.hull(n, b);
    }

    /// Object of a member access, callee of a call, tag of a template: a call-level expression.
    fn object(&mut self, n: &mut T) {
        if n.k == K::Prefix && n.s == "new" && !n.c[0].is(K::Call) {
            // `new X` without arguments would swallow what follows
            self.expr(n, P_MEMBER);
        } else {
            self.expr(n, P_CALL);
        }
    }
}

// ------------------------------------------------------------------- layout

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    /// one space where needed, nothing else
    Tight,
    /// a space between all tokens, newline after `;` `{` `}`
    Spaced,
    /// random trivia: spaces, tabs, line ends, comments; semicolons dropped where insertion applies
    Wild,
    /// like Wild, but without line terminators inside comments / dropped semicolons
    WildNoAsi,
    /// trivia in every gap, semicolons dropped wherever insertion applies
    Dense,
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$' || c == '\\' || (c as u32) > 127
}

/// Must there be trivia between two adjacent tokens?
pub fn must_separate(a: &Tok, b: &Tok) -> bool {
    if matches!(b.kind, TK::TplMiddle | TK::TplTail) || matches!(a.kind, TK::TplHead | TK::TplMiddle) {
        return false;
    }
    let x = a.s.chars().last().unwrap();
    let y = b.s.chars().next().unwrap();
    let aw = matches!(a.kind, TK::Word | TK::Num | TK::Regex);
    let bw = matches!(b.kind, TK::Word | TK::Num);
    if aw && bw {
        return true;
    }
    // `1.a` does not lex, `1 .a`, `1.5.a` and `0x1.a` do
    if a.kind == TK::Num && b.s.starts_with('.') && (b.s != "." || a.s.bytes().all(|b| b.is_ascii_digit())) {
        return true;
    }
    if wordy(x) && wordy(y) && a.kind != TK::Str && b.kind != TK::Str {
        return true;
    }
    if a.kind == TK::Num && b.s == "." {
        return false;
    }
    const OPS: &str = "+-*/%&|^<>=!.?:~";
    if a.kind != TK::Str && b.kind != TK::Str && OPS.contains(x) && OPS.contains(y) {
        return true;
    }
    // `.` followed by a number starting with a digit, `?` followed by `.5`
    if a.s == "." && b.kind == TK::Num {
        return true;
    }
    false
}

/// May the optional `;` in front of `next` be replaced by a line terminator?
fn asi_allows(next: &Tok) -> bool {
    match next.kind {
        TK::Word => !matches!(next.s.as_str(), "in" | "instanceof"),
        TK::Num => !next.s.starts_with('.') || true,
        TK::Str => true,
        TK::Punct => matches!(next.s.as_str(), "{" | "}" | "!" | "~" | "++" | "--"),
        _ => false,
    }
}

const COMMENTS: &[&str] = &["", "c", " x ", "*", "**", "\"", "'", "`", "${", "a = b;", "/", "//", "\u{e9}", "\u{1F600}", ";", "{", "}", "\\", "\t"];

const EOLS: [&str; 3] = ["\n", "\r\n", "\r"];

/// `eol`: 0 only \n, 1 mixed with \r\n, 2 mixed with lone \r, 3 all \r\n, 4 all \r
fn trivia(r: &mut Rng, nl: bool, need_nl: bool, comments: bool, eol: usize) -> String {
    let mut o = String::new();
    if r.chance(1, 4000) {
        // a long run
        let n = crate::gen::magnitude(r);
        match r.below(6) {
            0 => o.push_str(&" ".repeat(n)),
            1 if nl => o.push_str(&"\n".repeat(n)),
            2 if nl => o.push_str(&"\r\n".repeat(n)),
            3 if comments => o.push_str(&format!("/*{}*/", "*x".repeat(n))),
            4 if nl && comments => o.push_str(&format!("//{}\n", "\u{e9} ".repeat(n))),
            5 if comments => o.push_str(&"/**/".repeat(n)),
            _ => o.push_str(&"\t".repeat(n)),
        }
    }
    let e = |r: &mut Rng| -> &'static str {
        match eol {
            0 => "\n",
            1 | 2 => if r.chance(1, 2) { "\n" } else { EOLS[eol] },
            _ => EOLS[eol - 2],
        }
    };
    let n = r.range(1, 3);
    for _ in 0..n {
        match r.weighted(&[8, 3, if nl { 5 } else { 0 }, if comments { 2 } else { 0 }, if nl && comments { 2 } else { 0 }, if nl && comments { 1 } else { 0 }, 1]) {
            0 => o.push(' '),
            1 => o.push('\t'),
            2 => o.push_str(e(r)),
            3 => {
                o.push_str("/*");
                if r.chance(1, 3) {
                    o.push_str(&crate::synth::comment(r));
                } else {
                    o.push_str(*r.pick(COMMENTS));
                }
                o.push_str("*/");
            }
            4 => {
                o.push_str("//");
                o.push_str(*r.pick(COMMENTS));
                o.push_str(e(r));
            }
            5 => {
                o.push_str("/* l1");
                o.push_str(e(r));
                o.push_str(" l2 ");
                if r.chance(1, 2) {
                    o.push_str(e(r));
                    o.push('*');
                }
                o.push_str("*/");
            }
            _ => o.push(*r.pick(&['\x0b', '\x0c', ' '])),
        }
    }
    if need_nl && !o.contains(['\n', '\r']) {
        // the line terminator may sit before or after the rest, or inside a block comment
        match r.below(4) {
            0 => o.push_str(e(r)),
            1 => o.insert_str(0, e(r)),
            2 if comments => {
                o.push_str("/*");
                o.push_str(e(r));
                o.push_str("*/");
            }
            3 if comments => {
                o.insert_str(0, e(r));
                o.push_str("/*z*/");
            }
            _ => o.push_str(e(r)),
        }
    }
    o
}

pub struct Printed {
    pub src: String,
    pub toks: Vec<Tok>,
    /// the tree with byte spans
    pub tree: T,
}

/// Lay out tokens as text; the tree's token ranges become byte spans.
pub fn layout(mut toks: Vec<Tok>, mut tree: T, lay: Layout, r: &mut Rng) -> Printed {
    let mut src = String::new();
    let n = toks.len();
    let crlf = r.weighted(&[24, 2, 2, 2, 2]);
    let comment_free = r.chance(1, 4);
    let drop_rate = match lay {
        Layout::Wild => *r.pick(&[0usize, 30, 90]),
        Layout::Dense => 95,
        _ => 0,
    };
    if matches!(lay, Layout::Wild | Layout::WildNoAsi | Layout::Dense) && r.chance(1, 2) {
        src.push_str(&trivia(r, true, false, !comment_free, crlf));
    }
    let mut i = 0;
    let mut force_nl = false; // a `;` was dropped just before
    let mut last: Option<usize> = None;
    while i < n {
        // optional semicolons
        if toks[i].semi != Semi::No && r.below(100) < drop_rate {
            let next = toks[i + 1..].iter().find(|t| !t.dropped);
            let ok = match next {
                None => true,
                Some(t) if t.s == "}" && t.kind == TK::Punct => true,
                Some(t) => {
                    if toks[i].semi == Semi::Free {
                        t.s != ";"
                    } else if (asi_allows(t) || (last.map_or(false, |l| toks[l].arrow) && t.s != ";") || (toks[i].semi == Semi::Restricted && t.s != ";")) && !t.no_nl {
                        force_nl = true;
                        true
                    } else {
                        false
                    }
                }
            };
            if ok {
                toks[i].dropped = true;
                i += 1;
                continue;
            }
            force_nl = false;
        }
        if let Some(l) = last {
            let must = must_separate(&toks[l], &toks[i]);
            let no_nl = toks[i].no_nl;
            let comments = !comment_free;
            let before = src.len();
            match lay {
                Layout::Tight => {
                    if must {
                        src.push(' ');
                    }
                }
                Layout::Spaced => {
                    if matches!(toks[l].s.as_str(), ";" | "{" | "}") && toks[l].kind == TK::Punct && !no_nl {
                        src.push('\n');
                    } else {
                        src.push(' ');
                    }
                }
                _ => {
                    if must || force_nl || lay == Layout::Dense || r.chance(2, 5) {
                        let nl = !no_nl;
                        let tr = trivia(r, nl, force_nl, comments, crlf);
                        // a `/` directly before a comment would change the token
                        let slashy = toks[l].s.ends_with('/') && tr.starts_with('/');
                        let star = toks[l].s.ends_with('*') && tr.starts_with('/');
                        if slashy || star {
                            src.push(' ');
                        }
                        src.push_str(&tr);
                    }
                }
            }
            toks[i].nl_before = src[before..].contains(['\n', '\r']);
        }
        force_nl = false;
        toks[i].start = src.len() as u32;
        src.push_str(&toks[i].s);
        toks[i].end = src.len() as u32;
        last = Some(i);
        i += 1;
    }
    if matches!(lay, Layout::Wild | Layout::WildNoAsi | Layout::Dense) {
        if r.chance(1, 2) {
            src.push_str(&trivia(r, true, false, !comment_free, crlf));
        } else if r.chance(1, 8) {
            src.push_str("// end");
        }
    }
    fix_spans(&mut tree, &toks);
    Printed { src, toks, tree }
}

fn fix_spans(x: &mut T, toks: &[Tok]) {
    if x.end > x.start {
        let lo = x.start as usize;
        let hi = x.end as usize - 1;
        x.start = toks[lo].start;
        x.end = toks[hi].end;
    } else {
        x.start = 0;
        x.end = 0;
    }
    for c in &mut x.c {
        fix_spans(c, toks);
    }
}

/// Print a model program.
pub fn print(tree: &T, style: Style, lay: Layout, r: &mut Rng) -> Printed {
    let mut tree = tree.clone();
    clear(&mut tree);
    let toks = {
        let mut p = Printer::new(r, style);
        p.module(&mut tree);
        p.toks
    };
    layout(toks, tree, lay, r)
}

fn clear(x: &mut T) {
    x.start = 0;
    x.end = 0;
    for c in &mut x.c {
        clear(c);
    }
}

/// Such an expression can only stand first in its statement
pub fn begins_with_import(n: &T) -> bool {
    match n.k {
        K::Ident => n.s == "import",
        K::Seq | K::Member | K::CMember | K::Call | K::Binary | K::Postfix | K::Cond | K::Tagged => begins_with_import(&n.c[0]),
        _ => false,
    }
}
