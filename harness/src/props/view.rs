//! C20: what the tree shows of itself, its debug text and its equality, is the program.
use super::*;

/// Debug text, read back
enum V {
    N(String, Vec<(String, V)>, Vec<V>),
    L(Vec<V>),
    S(String),
    I(u64),
}

struct Rd<'a> {
    b: &'a str,
    i: usize,
}

type R<X> = Result<X, String>;

impl<'a> Rd<'a> {
    fn ws(&mut self) {
        while self.b[self.i..].starts_with([' ', '\n']) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.b[self.i..].starts_with(c) {
            self.i += c.len_utf8();
            return true;
        }
        false
    }
    fn word(&mut self) -> &'a str {
        let s = &self.b[self.i..];
        let n = s.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(s.len());
        self.i += n;
        &s[..n]
    }
    fn list(&mut self, end: char) -> R<Vec<V>> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Ok(v);
            }
            v.push(self.value()?);
            if !self.eat(',') {
                if self.eat(end) {
                    return Ok(v);
                }
                return Err(format!("no {:?} at {}", end, self.i));
            }
        }
    }
    fn value(&mut self) -> R<V> {
        self.ws();
        match self.b[self.i..].chars().next() {
            Some('[') => {
                self.i += 1;
                Ok(V::L(self.list(']')?))
            }
            Some('"') => self.string(),
            Some(c) if c.is_ascii_digit() => self.word().parse().map(V::I).map_err(|e| e.to_string()),
            Some(c) if c.is_ascii_alphabetic() => {
                let w = self.word().to_string();
                if self.eat('{') {
                    let mut f = vec![];
                    loop {
                        if self.eat('}') {
                            return Ok(V::N(w, f, vec![]));
                        }
                        self.ws();
                        let k = self.word().to_string();
                        if !self.eat(':') {
                            return Err(format!("no colon at {}", self.i));
                        }
                        f.push((k, self.value()?));
                        self.eat(',');
                    }
                }
                if self.eat('(') {
                    let v = self.list(')')?;
                    return Ok(V::N(w, vec![], v));
                }
                Ok(V::N(w, vec![], vec![]))
            }
            c => Err(format!("unexpected {:?} at {}", c, self.i)),
        }
    }
    fn string(&mut self) -> R<V> {
        self.i += 1;
        let mut o = String::new();
        let mut it = self.b[self.i..].char_indices();
        while let Some((n, c)) = it.next() {
            match c {
                '"' => {
                    self.i += n + 1;
                    return Ok(V::S(o));
                }
                '\\' => match it.next().map(|x| x.1) {
                    Some('n') => o.push('\n'),
                    Some('r') => o.push('\r'),
                    Some('t') => o.push('\t'),
                    Some('0') => o.push('\0'),
                    Some(c @ ('\\' | '"' | '\'')) => o.push(c),
                    Some('u') => {
                        let mut h = String::new();
                        it.next();
                        for (_, c) in it.by_ref() {
                            if c == '}' {
                                break;
                            }
                            h.push(c);
                        }
                        o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("escape")?);
                    }
                    c => return Err(format!("escape {:?}", c)),
                },
                c => o.push(c),
            }
        }
        Err("open string".into())
    }
}

impl V {
    fn name(&self) -> &str {
        match self {
            V::N(n, ..) => n,
            V::L(_) => "[]",
            V::S(_) => "\"\"",
            V::I(_) => "0",
        }
    }
    fn f(&self, k: &str) -> R<&V> {
        match self {
            V::N(n, f, _) => f.iter().find(|x| x.0 == k).map(|x| &x.1).ok_or(format!("{} has no {}", n, k)),
            _ => Err(format!("{} where something with {} was expected", self.name(), k)),
        }
    }
    fn t0(&self) -> R<&V> {
        match self {
            V::N(_, _, t) if t.len() == 1 => Ok(&t[0]),
            _ => Err(format!("{} has not one part", self.name())),
        }
    }
    fn s(&self) -> R<&str> {
        match self {
            V::S(s) => Ok(s),
            _ => Err(format!("{} where a string was expected", self.name())),
        }
    }
    fn l(&self) -> R<&[V]> {
        match self {
            V::L(l) => Ok(l),
            _ => Err(format!("{} where a list was expected", self.name())),
        }
    }
    fn n(&self) -> R<u32> {
        match self {
            V::I(l) => Ok(*l as u32),
            _ => Err(format!("{} where a number was expected", self.name())),
        }
    }
    fn b(&self) -> R<bool> {
        match self.name() {
            "true" => Ok(true),
            "false" => Ok(false),
            x => Err(format!("{} where a flag was expected", x)),
        }
    }
    fn opt(&self, f: impl Fn(&V) -> R<T>) -> R<T> {
        match self.name() {
            "None" => Ok(nil()),
            "Some" => f(self.t0()?),
            x => Err(format!("{} where an option was expected", x)),
        }
    }
}

/// What the node says, at the place it says
fn at(v: &V, f: impl Fn(&V) -> R<T>) -> R<T> {
    let mut x = f(v.f("item")?)?;
    x.start = v.f("start")?.n()?;
    x.end = v.f("end")?.n()?;
    Ok(x)
}
fn all(v: &V, f: impl Fn(&V) -> R<T>) -> R<Vec<T>> {
    v.l()?.iter().map(f).collect()
}
fn name(v: &V) -> R<T> {
    at(v, |v| Ok(leaf(K::Name, v.s()?)))
}
fn block(v: &V) -> R<T> {
    at(v, |v| Ok(t(K::Block, "", all(v.f("body")?, stmt)?)))
}
fn func(v: &V, k: K) -> R<T> {
    let g = if v.f("generator")?.b()? { "*" } else { "" };
    Ok(t(k, g, vec![fname(v.f("name")?)?, t(K::Params, "", all(v.f("params")?, pat)?), block(v.f("body")?)?]))
}
fn fname(v: &V) -> R<T> {
    match v.name() {
        "EmptyName" => Ok(nil()),
        "MandatoryName" => name(v.t0()?),
        _ => v.t0()?.opt(name),
    }
}
fn class(v: &V, k: K) -> R<T> {
    let body = at(v.f("body")?, |b| Ok(t(K::ClassBody, "", all(b.f("body")?, |m| at(m, member))?)))?;
    Ok(t(k, "", vec![fname(v.f("name")?)?, v.f("extends")?.opt(expr)?, body]))
}
fn member(m: &V) -> R<T> {
    let st = m.f("is_static")?.b()?;
    if m.name() == "Method" {
        let s = format!("{}{}", if st { "static " } else { "" }, m.f("kind")?.name().to_lowercase());
        return Ok(t(K::CMethod, &s, vec![key(m.f("key")?)?, at(m.f("value")?, |v| func(v, K::Method))?]));
    }
    Ok(t(K::CField, if st { "static" } else { "" }, vec![key(m.f("key")?)?, expr(m.f("value")?)?]))
}
fn key(v: &V) -> R<T> {
    at(v, |v| {
        let x = v.t0()?;
        Ok(match v.name() {
            "Computed" => t(K::KeyComp, "", vec![expr(x)?]),
            "Literal" => leaf(K::KeyLit, x.s()?),
            _ => leaf(K::KeyBin, x.s()?),
        })
    })
}
fn prop(v: &V) -> R<T> {
    at(v, |v| {
        Ok(match v.name() {
            "Shorthand" => leaf(K::PShort, v.t0()?.s()?),
            "Literal" => t(K::PKV, "", vec![key(v.f("key")?)?, expr(v.f("value")?)?]),
            "Method" => t(K::PMethod, "", vec![key(v.f("key")?)?, at(v.f("value")?, |v| func(v, K::Method))?]),
            "Spread" => t(K::PSpread, "", vec![expr(v.f("argument")?)?]),
            x => return Err(format!("property {}", x)),
        })
    })
}
fn pat(v: &V) -> R<T> {
    at(v, |v| {
        Ok(match v.name() {
            "Void" => leaf(K::PatVoid, ""),
            "Identifier" => leaf(K::PatIdent, v.t0()?.s()?),
            "ObjectPattern" => t(K::PatObj, "", all(v.f("properties")?, prop)?),
            "ArrayPattern" => t(K::PatArr, "", trailing(all(v.f("elements")?, pat)?, K::PatVoid)),
            "RestElement" => t(K::PatRest, "", vec![name(v.f("argument")?)?]),
            "AssignmentPattern" => t(K::PatAssign, "", vec![pat(v.f("left")?)?, expr(v.f("right")?)?]),
            x => return Err(format!("pattern {}", x)),
        })
    })
}
/// a trailing comma shows as a hole
fn trailing(mut v: Vec<T>, k: K) -> Vec<T> {
    if v.last().map(|x| x.k) == Some(k) {
        v.pop();
    }
    v
}
const OPERATORS: &[(&str, &str)] = &[
    ("New", "new"), ("Increment", "++"), ("Decrement", "--"), ("LogicalNot", "!"), ("BitwiseNot", "~"), ("Typeof", "typeof"), ("Void", "void"), ("Delete", "delete"),
    ("Multiplication", "*"), ("Division", "/"), ("Remainder", "%"), ("Exponent", "**"), ("Addition", "+"), ("Subtraction", "-"), ("BitShiftLeft", "<<"),
    ("BitShiftRight", ">>"), ("UBitShiftRight", ">>>"), ("Lesser", "<"), ("LesserEquals", "<="), ("Greater", ">"), ("GreaterEquals", ">="),
    ("Instanceof", "instanceof"), ("In", "in"), ("StrictEquality", "==="), ("StrictInequality", "!=="), ("Equality", "=="), ("Inequality", "!="),
    ("BitwiseAnd", "&"), ("BitwiseXor", "^"), ("BitwiseOr", "|"), ("LogicalAnd", "&&"), ("LogicalOr", "||"), ("Assign", "="), ("AddAssign", "+="),
    ("SubtractAssign", "-="), ("ExponentAssign", "**="), ("MultiplyAssign", "*="), ("DivideAssign", "/="), ("RemainderAssign", "%="), ("BSLAssign", "<<="),
    ("BSRAssign", ">>="), ("UBSRAssign", ">>>="), ("BitAndAssign", "&="), ("BitXorAssign", "^="), ("BitOrAssign", "|="),
];
fn op(v: &V) -> R<&'static str> {
    OPERATORS.iter().find(|x| x.0 == v.name()).map(|x| x.1).ok_or(format!("operator {}", v.name()))
}
fn template(v: &V) -> R<T> {
    let q = all(v.f("quasis")?, |q| at(q, |v| Ok(leaf(K::Quasi, v.s()?))))?;
    let mut e = all(v.f("expressions")?, expr)?.into_iter();
    let mut c = vec![];
    for x in q {
        c.push(x);
        c.extend(e.next());
    }
    c.extend(e);
    Ok(t(K::Template, "", c))
}
fn expr(v: &V) -> R<T> {
    at(v, |v| {
        if v.name() == "Void" {
            return Ok(leaf(K::Void, ""));
        }
        let x = v.t0()?;
        let e = |k: &str| x.f(k).and_then(expr);
        let n = |k: &str| x.f(k).and_then(name);
        Ok(match v.name() {
            "This" => leaf(K::This, ""),
            "Identifier" => leaf(K::Ident, x.s()?),
            "Literal" => match x.name() {
                "Undefined" => leaf(K::LitUndefined, ""),
                "Null" => leaf(K::LitNull, ""),
                "True" => leaf(K::LitTrue, ""),
                "False" => leaf(K::LitFalse, ""),
                "Number" => leaf(K::LitNum, x.t0()?.s()?),
                "Binary" => leaf(K::LitBin, x.t0()?.s()?),
                "String" => leaf(K::LitStr, x.t0()?.s()?),
                "RegEx" => leaf(K::LitRe, x.t0()?.s()?),
                x => return Err(format!("literal {}", x)),
            },
            "Sequence" => t(K::Seq, "", all(x.f("body")?, expr)?),
            "Array" => t(K::Array, "", trailing(all(x.f("body")?, expr)?, K::Void)),
            "Member" => t(K::Member, "", vec![e("object")?, n("property")?]),
            "ComputedMember" => t(K::CMember, "", vec![e("object")?, e("property")?]),
            "MetaProperty" => t(K::Meta, "", vec![n("meta")?, n("property")?]),
            "Call" => {
                let mut c = vec![e("callee")?];
                c.extend(all(x.f("arguments")?, expr)?);
                t(K::Call, "", c)
            }
            "Binary" => t(K::Binary, op(x.f("operator")?)?, vec![e("left")?, e("right")?]),
            "Prefix" => t(K::Prefix, op(x.f("operator")?)?, vec![e("operand")?]),
            "Postfix" => t(K::Postfix, op(x.f("operator")?)?, vec![e("operand")?]),
            "Conditional" => t(K::Cond, "", vec![e("test")?, e("consequent")?, e("alternate")?]),
            "Template" => template(x)?,
            "TaggedTemplate" => t(K::Tagged, "", vec![e("tag")?, at(x.f("quasi")?, template)?]),
            "Spread" => t(K::Spread, "", vec![e("argument")?]),
            "Arrow" => {
                let ps = t(K::Params, "", all(x.f("params")?, pat)?);
                let b = x.f("body")?;
                if b.name() == "Block" {
                    t(K::Arrow, "block", vec![ps, block(b.t0()?)?])
                } else {
                    t(K::Arrow, "expr", vec![ps, expr(b.t0()?)?])
                }
            }
            "Object" => t(K::Object, "", all(x.f("body")?, prop)?),
            "Function" => func(x, K::FnExpr)?,
            "Class" => class(x, K::ClassExpr)?,
            x => return Err(format!("expression {}", x)),
        })
    })
}
fn decl(x: &V) -> R<T> {
    let c = all(x.f("declarators")?, |d| at(d, |d| Ok(t(K::Declarator, "", vec![pat(d.f("id")?)?, d.f("init")?.opt(expr)?]))))?;
    Ok(t(K::Decl, &x.f("kind")?.name().to_lowercase(), c))
}
fn head(v: &V) -> R<T> {
    at(v, |i| match i.name() {
        "Declaration" => decl(i.t0()?),
        _ => Ok(T { start: 0, end: 0, ..expr(i.t0()?)? }),
    })
}
fn stmt(v: &V) -> R<T> {
    at(v, |v| {
        match v.name() {
            "Empty" => return Ok(leaf(K::Empty, "")),
            "Debugger" => return Ok(leaf(K::Debugger, "")),
            _ => {}
        }
        let x = v.t0()?;
        let e = |k: &str| x.f(k).and_then(expr);
        let s = |k: &str| x.f(k).and_then(stmt);
        Ok(match v.name() {
            "Expression" => t(K::ExprStmt, "", vec![expr(x)?]),
            "Declaration" => decl(x)?,
            "Return" => t(K::Return, "", vec![x.f("value")?.opt(expr)?]),
            "Break" => t(K::Break, "", vec![x.f("label")?.opt(name)?]),
            "Continue" => t(K::Continue, "", vec![x.f("label")?.opt(name)?]),
            "Throw" => t(K::Throw, "", vec![e("value")?]),
            "If" => t(K::If, "", vec![e("test")?, s("consequent")?, x.f("alternate")?.opt(stmt)?]),
            "While" => t(K::While, "", vec![e("test")?, s("body")?]),
            "Do" => t(K::Do, "", vec![s("body")?, e("test")?]),
            "For" => t(K::For, "", vec![x.f("init")?.opt(head)?, x.f("test")?.opt(expr)?, x.f("update")?.opt(expr)?, s("body")?]),
            "ForIn" => t(K::ForIn, "", vec![head(x.f("left")?)?, e("right")?, s("body")?]),
            "ForOf" => t(K::ForOf, "", vec![head(x.f("left")?)?, e("right")?, s("body")?]),
            "Try" => t(
                K::Try,
                "",
                vec![
                    block(x.f("block")?)?,
                    x.f("handler")?.opt(|h| at(h, |h| Ok(t(K::Catch, "", vec![pat(h.f("param")?)?, block(h.f("body")?)?]))))?,
                    x.f("finalizer")?.opt(block)?,
                ],
            ),
            "Block" => t(K::Block, "", all(x.f("body")?, stmt)?),
            "Labeled" => t(K::Labeled, x.f("label")?.s()?, vec![s("body")?]),
            "Function" => func(x, K::FnDecl)?,
            "Class" => class(x, K::ClassDecl)?,
            "Switch" => {
                let mut c = vec![e("discriminant")?];
                let cases = x.f("cases")?.f("item")?;
                c.extend(all(cases.f("body")?, |k| {
                    at(k, |k| {
                        let mut v = vec![k.f("test")?.opt(expr)?];
                        v.extend(all(k.f("consequent")?, stmt)?);
                        Ok(t(K::Case, "", v))
                    })
                })?);
                t(K::Switch, "", c)
            }
            "Import" => {
                let c = all(x.f("specifiers")?, |k| {
                    at(k, |k| {
                        let i = k.t0()?;
                        Ok(match k.name() {
                            "ImportSpecifier" => t(K::ImportSpec, "", vec![name(i.f("imported")?)?, name(i.f("local")?)?]),
                            "ImportDefaultSpecifier" => t(K::ImportDefault, "", vec![name(i.f("local")?)?]),
                            _ => t(K::ImportNs, "", vec![name(i.f("local")?)?]),
                        })
                    })
                })?;
                t(K::Import, x.f("source")?.s()?, c)
            }
            x => return Err(format!("statement {}", x)),
        })
    })
}

pub(super) fn read(s: &str) -> R<T> {
    let mut r = Rd { b: s, i: 0 };
    let v = r.value()?;
    r.ws();
    if r.i != s.len() {
        return Err(format!("text goes on at {}", r.i));
    }
    Ok(t(K::Module, "", all(&v, stmt)?))
}

/// Where a `for` head is an expression it stands in a node of its own, with the same range
pub(super) fn places(a: &T, b: &T) -> Option<String> {
    if !matches!(a.k, K::Nil | K::Module | K::Params) && (a.start, a.end) != (b.start, b.end) {
        return Some(format!("{:?} at {}..{} instead of {}..{}", a.k, b.start, b.end, a.start, a.end));
    }
    a.c.iter().zip(&b.c).find_map(|(x, y)| places(x, y))
}

const BINARY: &[&str] = &[
    "*", "/", "%", "**", "+", "-", "<<", ">>", ">>>", "<", "<=", ">", ">=", "instanceof", "in", "===", "!==", "==", "!=", "&", "^", "|", "&&", "||", "=", "+=", "-=", "**=",
    "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "^=", "|=",
];
const PREFIX: &[&str] = &["++", "--", "!", "~", "+", "-", "typeof", "void", "delete", "new"];

/// another character, inside the quotes if there are any
fn inside(s: &mut String, c: char) {
    if s.len() > 1 && s.ends_with(['"', '\'', '`']) {
        s.insert(s.len() - 1, c);
    } else {
        s.push(c);
    }
}

/// One of the children fewer, one more, or two exchanged
fn list(x: &mut T, from: usize, min: usize, r: &mut Rng) -> Option<&'static str> {
    let n = x.c.len() - from;
    match r.below(3) {
        0 if n > min => {
            x.c.remove(from + r.below(n));
            Some("one fewer in")
        }
        1 if n > 0 => {
            let y = x.c[from + r.below(n)].clone();
            x.c.insert(from + r.below(n + 1), y);
            Some("one more in")
        }
        _ if n > 1 => {
            let i = from + r.below(n - 1);
            x.c.swap(i, i + 1);
            Some("two exchanged in")
        }
        _ => None,
    }
}

/// Leave out the optional child, or fill it in
fn option(x: &mut T, i: usize, other: T) -> &'static str {
    if x.c[i].k == K::Nil {
        x.c[i] = other;
        "added"
    } else {
        x.c[i] = nil();
        "left out"
    }
}

fn change(x: &mut T, r: &mut Rng) -> Option<String> {
    let k = x.k;
    let id = || leaf(K::Ident, "zq");
    let nm = || leaf(K::Name, "zq");
    let blk = || t(K::Block, "", vec![]);
    let how: &str = match k {
        K::Ident | K::Name | K::PatIdent | K::PShort | K::Labeled => {
            if k == K::Ident && r.chance(1, 4) {
                x.k = *r.pick(&[K::This, K::LitUndefined]);
                x.s.clear();
                "another literal"
            } else {
                x.s.push('q');
                "name"
            }
        }
        K::KeyLit => {
            let digit = x.s.starts_with(|c: char| c.is_ascii_digit() || c == '.');
            inside(&mut x.s, if digit { '7' } else { 'q' });
            "key"
        }
        K::KeyBin | K::LitBin => {
            x.s.push('1');
            "digits"
        }
        K::LitNum => {
            x.s.push('7');
            "digits"
        }
        K::LitStr | K::Import if r.chance(1, 2) || k == K::LitStr => {
            inside(&mut x.s, 'q');
            "text"
        }
        K::Quasi => {
            x.s.push('q');
            "text"
        }
        K::LitRe => {
            let f = *r.pick(&['g', 'i', 'm', 'u', 'y']);
            let (body, flags) = x.s.split_at(x.s.rfind('/')? + 1);
            x.s = if flags.contains(f) { format!("{}{}", body, flags.replace(f, "")) } else { format!("{}{}{}", body, flags, f) };
            "flags"
        }
        K::Binary if r.chance(2, 3) => {
            // among those of one kind first, so that the change is a program
            let i = BINARY.iter().position(|o| *o == x.s)?;
            let j = if r.chance(1, 2) { (i + 1) % BINARY.len() } else { r.below(BINARY.len()) };
            x.s = BINARY[j].into();
            "operator"
        }
        K::Prefix => {
            x.s = r.pick(PREFIX).to_string();
            "operator"
        }
        K::Postfix => {
            x.s = if x.s == "++" { "--".into() } else { "++".into() };
            "operator"
        }
        K::FnExpr if r.chance(1, 3) => option(x, 0, nm()),
        K::ClassExpr | K::ClassDecl if r.chance(1, 2) || k == K::ClassDecl => option(x, 1, id()),
        K::ClassExpr => option(x, 0, nm()),
        K::FnExpr | K::FnDecl => {
            x.s = if x.s.is_empty() { "*".into() } else { String::new() };
            "generator"
        }
        K::CField => {
            x.s = if x.s.is_empty() { "static".into() } else { String::new() };
            "static"
        }
        K::CMethod => {
            let (st, kind) = match x.s.strip_prefix("static ") {
                Some(k) => ("static ", k.to_string()),
                None => ("", x.s.clone()),
            };
            if r.chance(1, 2) {
                x.s = format!("{}{}", if st.is_empty() { "static " } else { "" }, kind);
                "static"
            } else {
                x.s = format!("{}{}", st, r.pick(&["get", "set", "method"]));
                "kind of method"
            }
        }
        K::This | K::LitUndefined | K::LitNull | K::LitTrue | K::LitFalse => {
            x.k = *r.pick(&[K::This, K::LitUndefined, K::LitNull, K::LitTrue, K::LitFalse]);
            "another literal"
        }
        K::Module | K::Block | K::Object | K::Array | K::Params | K::ClassBody | K::PatObj | K::PatArr => list(x, 0, 0, r)?,
        K::Decl if r.chance(1, 2) => {
            x.s = r.pick(&["let", "var", "const"]).to_string();
            "kind of declaration"
        }
        K::Decl => list(x, 0, 1, r)?,
        K::Seq => list(x, 0, 2, r)?,
        K::Call | K::Switch | K::Case if r.chance(2, 3) || k == K::Call => list(x, 1, 0, r)?,
        K::Case => option(x, 0, id()),
        K::Import => {
            if x.c.is_empty() || r.chance(1, 2) {
                list(x, 0, 0, r)?
            } else {
                match x.c[0].k {
                    K::ImportDefault => {
                        x.c[0].k = K::ImportNs;
                        "another kind of import"
                    }
                    K::ImportNs => {
                        x.c[0].k = K::ImportDefault;
                        "another kind of import"
                    }
                    _ => list(x, 0, 0, r)?,
                }
            }
        }
        K::Return => option(x, 0, id()),
        K::Break | K::Continue => {
            if r.chance(1, 2) {
                x.k = if k == K::Break { K::Continue } else { K::Break };
                "another jump"
            } else {
                option(x, 0, nm())
            }
        }
        K::Empty | K::Debugger => {
            x.k = if k == K::Empty { K::Debugger } else { K::Empty };
            "another statement"
        }
        K::Throw => {
            x.k = K::Return;
            "another statement"
        }
        K::If => {
            if r.chance(1, 2) && x.c[2].k != K::Nil {
                x.c.swap(1, 2);
                "branches exchanged"
            } else {
                option(x, 2, leaf(K::Empty, ""))
            }
        }
        K::While => {
            x.k = K::Do;
            x.c.swap(0, 1);
            "another loop"
        }
        K::Do => {
            x.k = K::While;
            x.c.swap(0, 1);
            "another loop"
        }
        K::For => option(x, r.below(3), id()),
        K::ForIn | K::ForOf => {
            x.k = if k == K::ForIn { K::ForOf } else { K::ForIn };
            "another loop"
        }
        K::Try => {
            if r.chance(1, 2) {
                option(x, 2, blk())
            } else {
                option(x, 1, t(K::Catch, "", vec![leaf(K::PatIdent, "zq"), blk()]))
            }
        }
        K::Declarator => option(x, 1, id()),
        K::Cond => {
            let (i, j) = *r.pick(&[(0, 1), (1, 2), (0, 2)]);
            x.c.swap(i, j);
            "operands exchanged"
        }
        K::Binary | K::CMember => {
            x.c.swap(0, 1);
            "operands exchanged"
        }
        K::Spread | K::PatAssign => {
            *x = x.c[0].clone();
            "taken apart"
        }
        K::PatRest => {
            *x = leaf(K::PatIdent, &x.c[0].s.clone());
            "taken apart"
        }
        K::Template if x.c.len() > 1 => {
            let i = 1 + 2 * r.below(x.c.len() / 2);
            x.c.drain(i..i + 2);
            "one fewer in"
        }
        K::Tagged => {
            x.c[0] = t(K::Member, "", vec![x.c[0].clone(), nm()]);
            "a member of it"
        }
        K::PMethod if x.c[1].c[0].k == K::Nil => {
            let mut f = x.c[1].clone();
            if r.chance(1, 2) {
                f.s = if f.s.is_empty() { "*".into() } else { String::new() };
                x.c[1] = f;
                "generator"
            } else {
                f.k = K::FnExpr;
                x.k = K::PKV;
                x.c[1] = f;
                "a function for a method"
            }
        }
        K::Arrow if x.s == "expr" => {
            x.s = "block".into();
            x.c[1] = t(K::Block, "", vec![t(K::Return, "", vec![x.c[1].clone()])]);
            "a block for an expression"
        }
        K::Switch => {
            x.c[0] = id();
            "another expression"
        }
        _ => return None,
    };
    Some(format!("{} {:?}", how, k))
}

/// One small change to a program: another program. Every kind of node has an equal chance.
fn tweak(tree: &mut T, r: &mut Rng) -> Option<String> {
    let mut kinds: Vec<(K, usize)> = vec![];
    tree.walk_mut(&mut |x| match kinds.iter_mut().find(|k| k.0 == x.k) {
        Some(k) => k.1 += 1,
        None => kinds.push((x.k, 1)),
    });
    for _ in 0..8 {
        let (k, n) = *r.pick(&kinds);
        let mut left = r.below(n) as isize;
        let mut how = None;
        tree.walk_mut(&mut |x| {
            if x.k == k {
                if left == 0 {
                    how = change(x, r);
                }
                left -= 1;
            }
        });
        if how.is_some() {
            return how;
        }
    }
    None
}

pub fn c20(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let m = match ratel::parse(&p.src) {
        Ok(m) => m,
        Err(_) => {
            ctx.stats.inconclusive += 1;
            return Ok(());
        }
    };
    let tree = conv::module(&m);
    if diff(&p.tree, &tree).is_some() {
        ctx.stats.inconclusive += 1;
        return Ok(());
    }
    // the debug text
    let depth = tree.depth();
    for pretty in [false, true] {
        if pretty && (depth > 30 || tree.count() > 3000 || ctx.idx % 4 != 0) {
            continue;
        }
        let text = if pretty { format!("{:#?}", m.body()) } else { format!("{:?}", m.body()) };
        ctx.stats.count("debug_bytes", text.len() as u64);
        match read(&text) {
            Err(e) => return Err(bad("debug text cannot be read", format!("{}\n{}", e, clip(&text)), &*p.src)),
            Ok(x) => {
                same("debug text", &tree, &x, &p.src)?;
                if let Some(w) = places(&tree, &x) {
                    return Err(bad("debug text: location", w, &*p.src));
                }
            }
        }
    }
    // the module's own is a line for each statement
    let mut lines = String::from("Module:");
    for x in m.body().iter() {
        use std::fmt::Write;
        write!(lines, "\n\t{:?}", x).unwrap();
    }
    if format!("{:?}", m) != lines {
        return Err(bad("debug text of the module", format!("expected {}\ngot {:?}", clip(&lines), m), &*p.src));
    }
    // equality: the same program in another layout, and another program
    let st = style(&mut ctx.r);
    let q = print::print(&p.tree, st, Layout::Wild, &mut ctx.r);
    if let Ok(m2) = ratel::parse(&q.src) {
        if diff(&conv::raw_module(&m), &conv::raw_module(&m2)).is_none() {
            if m.body() != m2.body() || m2.body() != m.body() {
                return Err(bad("equal programs compare unequal", format!("two layouts of a program compare unequal; the other is:\n{}", q.src), &*p.src));
            }
            ctx.stats.count("equal_pairs", 1);
        }
    }
    let rounds = if p.src.len() > 20_000 { 1 } else { 6 };
    for _ in 0..rounds {
        let mut other = p.tree.clone();
        let how = match tweak(&mut other, &mut ctx.r) {
            Some(how) => how,
            None => continue,
        };
        // a change can put something where it cannot be written
        let r = &mut ctx.r;
        let q = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| print::print(&other, st, Layout::Tight, r))) {
            Ok(q) => q,
            Err(_) => continue,
        };
        // the change may not be a program; what matters is whether the parsed trees differ
        if let Ok(m2) = ratel::parse(&q.src) {
            let t2 = conv::module(&m2);
            if diff(&tree, &t2).is_some() {
                if m.body() == m2.body() || m2.body() == m.body() {
                    return Err(bad(format!("different programs compare equal: {}", how), format!("{}; the other is:\n{}", how, q.src), &*p.src));
                }
                ctx.stats.count("unequal_pairs", 1);
                ctx.stats.seen("differences", crate::rng::fnv(how.as_bytes()));
            }
        } else {
            ctx.stats.count("changes_that_are_no_program", 1);
        }
    }
    note(ctx, &p);
    Ok(())
}
