//! The reference model of a program: an owned, generic syntax tree that does not share code with
//! the crate under test. `start`/`end` hold source byte offsets once a layout has been made.
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms)]
pub enum K {
    Nil,
    Module,
    // statements
    Empty,
    Debugger,
    ExprStmt,
    Decl,
    Declarator,
    Return,
    Break,
    Continue,
    Throw,
    If,
    While,
    Do,
    For,
    ForIn,
    ForOf,
    Try,
    Catch,
    Block,
    Labeled,
    Switch,
    Case,
    Import,
    ImportSpec,
    ImportDefault,
    ImportNs,
    FnDecl,
    ClassDecl,
    // functions / classes
    FnExpr,
    Method,
    Params,
    ClassExpr,
    ClassBody,
    CMethod,
    CField,
    Name,
    // keys and properties
    KeyLit,
    KeyBin,
    KeyComp,
    PShort,
    PKV,
    PMethod,
    PSpread,
    // expressions
    Void,
    This,
    Ident,
    LitUndefined,
    LitNull,
    LitTrue,
    LitFalse,
    LitNum,
    LitBin,
    LitStr,
    LitRe,
    Seq,
    Array,
    Object,
    Member,
    CMember,
    Meta,
    Call,
    Binary,
    Prefix,
    Postfix,
    Cond,
    Template,
    Quasi,
    Tagged,
    Spread,
    Arrow,
    // patterns
    PatVoid,
    PatIdent,
    PatObj,
    PatArr,
    PatRest,
    PatAssign,
    // only ever produced by converting a tree the parser should not have returned
    ErrorNode,
}

pub const ALL: &[K] = &[
    K::Nil,
    K::Module,
    K::Empty,
    K::Debugger,
    K::ExprStmt,
    K::Decl,
    K::Declarator,
    K::Return,
    K::Break,
    K::Continue,
    K::Throw,
    K::If,
    K::While,
    K::Do,
    K::For,
    K::ForIn,
    K::ForOf,
    K::Try,
    K::Catch,
    K::Block,
    K::Labeled,
    K::Switch,
    K::Case,
    K::Import,
    K::ImportSpec,
    K::ImportDefault,
    K::ImportNs,
    K::FnDecl,
    K::ClassDecl,
    K::FnExpr,
    K::Method,
    K::Params,
    K::ClassExpr,
    K::ClassBody,
    K::CMethod,
    K::CField,
    K::Name,
    K::KeyLit,
    K::KeyBin,
    K::KeyComp,
    K::PShort,
    K::PKV,
    K::PMethod,
    K::PSpread,
    K::Void,
    K::This,
    K::Ident,
    K::LitUndefined,
    K::LitNull,
    K::LitTrue,
    K::LitFalse,
    K::LitNum,
    K::LitBin,
    K::LitStr,
    K::LitRe,
    K::Seq,
    K::Array,
    K::Object,
    K::Member,
    K::CMember,
    K::Meta,
    K::Call,
    K::Binary,
    K::Prefix,
    K::Postfix,
    K::Cond,
    K::Template,
    K::Quasi,
    K::Tagged,
    K::Spread,
    K::Arrow,
    K::PatVoid,
    K::PatIdent,
    K::PatObj,
    K::PatArr,
    K::PatRest,
    K::PatAssign,
    K::ErrorNode,
];

#[derive(Clone, Debug)]
pub struct T {
    pub k: K,
    pub s: String,
    pub c: Vec<T>,
    pub start: u32,
    pub end: u32,
}

impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        self.k == o.k && self.s == o.s && self.c == o.c
    }
}

pub fn t(k: K, s: &str, c: Vec<T>) -> T {
    T { k, s: s.to_string(), c, start: 0, end: 0 }
}
pub fn nil() -> T {
    t(K::Nil, "", vec![])
}
pub fn leaf(k: K, s: &str) -> T {
    t(k, s, vec![])
}

impl T {
    pub fn is(&self, k: K) -> bool {
        self.k == k
    }
    pub fn count(&self) -> usize {
        1 + self.c.iter().map(|x| x.count()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.c.iter().map(|x| x.depth()).max().unwrap_or(0)
    }
    pub fn walk<F: FnMut(&T)>(&self, f: &mut F) {
        f(self);
        for x in &self.c {
            x.walk(f);
        }
    }
    pub fn walk_mut<F: FnMut(&mut T)>(&mut self, f: &mut F) {
        f(self);
        for x in &mut self.c {
            x.walk_mut(f);
        }
    }
    pub fn sexp(&self) -> String {
        let mut o = String::new();
        self.sexp_into(&mut o, false);
        o
    }
    /// kind, text, number of children, children, without nesting
    pub fn json(&self) -> serde_json::Value {
        let mut v = vec![];
        self.walk(&mut |x| {
            v.push(format!("{:?}", x.k).into());
            v.push(x.s.clone().into());
            v.push(x.c.len().into());
        });
        serde_json::Value::Array(v)
    }
    pub fn sexp_pos(&self) -> String {
        let mut o = String::new();
        self.sexp_into(&mut o, true);
        o
    }
    fn sexp_into(&self, o: &mut String, pos: bool) {
        if self.k == K::Nil {
            o.push('-');
            return;
        }
        write!(o, "({:?}", self.k).unwrap();
        if pos {
            write!(o, "@{}..{}", self.start, self.end).unwrap();
        }
        if !self.s.is_empty() {
            write!(o, " {:?}", self.s).unwrap();
        }
        for x in &self.c {
            o.push(' ');
            x.sexp_into(o, pos);
        }
        o.push(')');
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::rng::fnv(self.s.as_bytes()) ^ (self.k as u64).wrapping_mul(0x9E37_79B9);
        for x in &self.c {
            h = crate::rng::mix(h.rotate_left(7) ^ x.hash());
        }
        crate::rng::mix(h.wrapping_add(self.c.len() as u64))
    }
    /// Hash of the shape (kinds and operators, not names/literals)
    pub fn shape(&self) -> u64 {
        let s = match self.k {
            K::Binary | K::Prefix | K::Postfix | K::Decl => crate::rng::fnv(self.s.as_bytes()),
            _ => 0,
        };
        let mut h = s ^ (self.k as u64).wrapping_mul(0x9E37_79B9);
        for x in &self.c {
            h = crate::rng::mix(h.rotate_left(7) ^ x.shape());
        }
        crate::rng::mix(h.wrapping_add(self.c.len() as u64))
    }
}

/// First difference between two trees, as a readable path.
pub fn diff(expected: &T, got: &T) -> Option<String> {
    fn go(a: &T, b: &T, path: &mut Vec<String>) -> Option<String> {
        if a.k != b.k || a.s != b.s {
            return Some(format!(
                "at {}: expected {} got {}",
                path.join("/"),
                clip(&a.sexp()),
                clip(&b.sexp())
            ));
        }
        for (i, (x, y)) in a.c.iter().zip(&b.c).enumerate() {
            path.push(format!("{:?}[{}]", a.k, i));
            if let Some(d) = go(x, y, path) {
                return Some(d);
            }
            path.pop();
        }
        if a.c.len() != b.c.len() {
            return Some(format!(
                "at {}: {:?} expected {} children got {}: {} vs {}",
                path.join("/"),
                a.k,
                a.c.len(),
                b.c.len(),
                clip(&a.sexp()),
                clip(&b.sexp())
            ));
        }
        None
    }
    go(expected, got, &mut vec![])
}

pub fn clip(s: &str) -> String {
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s.to_string()
    }
}
