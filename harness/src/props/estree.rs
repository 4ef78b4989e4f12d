//! C06: the ESTree serialisation, against ESTree built from the model tree.
use super::*;
use std::fmt::Write;

/// JSON with the text of its numbers
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at byte {}", c as char, self.i))
        }
    }
    fn word(&mut self, w: &str, j: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(j)
        } else {
            Err(format!("expected {} at byte {}", w, self.i))
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        let mut hi = 0u32;
        loop {
            let c = *self.b.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| "not UTF-8".to_string()),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or("unterminated string")?;
                    self.i += 1;
                    let ch = match e {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'"' | b'\\' | b'/' => e as char,
                        b'u' => {
                            let h = self.b.get(self.i..self.i + 4).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u32::from_str_radix(h, 16).ok()).ok_or("wrong \\u")?;
                            self.i += 4;
                            if (0xd800..0xdc00).contains(&h) {
                                hi = h;
                                continue;
                            }
                            let cp = if hi > 0 { 0x10000 + ((hi - 0xd800) << 10) + h.wrapping_sub(0xdc00) } else { h };
                            hi = 0;
                            char::from_u32(cp).ok_or("wrong \\u")?
                        }
                        _ => return Err("wrong escape".into()),
                    };
                    let mut buf = [0; 4];
                    out.extend(ch.encode_utf8(&mut buf).as_bytes());
                }
                c if c < 0x20 => return Err("control character in a string".into()),
                c => out.push(c),
            }
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.b.get(self.i) {
            Some(b'n') => self.word("null", J::Null),
            Some(b't') => self.word("true", J::Bool(true)),
            Some(b'f') => self.word("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.b.get(self.i) == Some(&b',') {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b']')?;
                    return Ok(J::Arr(v));
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    if v.iter().any(|x| x.0 == k) {
                        return Err(format!("key {:?} twice", k));
                    }
                    self.eat(b':')?;
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    if self.b.get(self.i) == Some(&b',') {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b'}')?;
                    return Ok(J::Obj(v));
                }
            }
            Some(b'-' | b'0'..=b'9') => {
                let s = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                Ok(J::Num(String::from_utf8_lossy(&self.b[s..self.i]).into_owned()))
            }
            _ => Err(format!("no value at byte {}", self.i)),
        }
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i < p.b.len() {
        return Err(format!("more text at byte {}", p.i));
    }
    Ok(v)
}

fn clipj(j: &J) -> String {
    let mut s = String::new();
    let _ = write!(s, "{:?}", j);
    clip(&s)
}

/// First difference; the order of keys means nothing.
pub fn jdiff(e: &J, g: &J, path: &mut Vec<String>) -> Option<(String, String)> {
    let here = |what: String, path: &Vec<String>| {
        // the signature: type of the node around and the name of the field
        let sig = path.iter().rev().take(2).rev().cloned().collect::<Vec<_>>().join(".");
        Some((sig, format!("at {}: {}", path.join("."), what)))
    };
    match (e, g) {
        (J::Obj(a), J::Obj(b)) => {
            let ty = a.iter().find(|x| x.0 == "type").map(|x| clipj(&x.1)).unwrap_or_default();
            path.push(ty.replace("Str(", "").replace([')', '"'], ""));
            for (k, v) in a {
                match b.iter().find(|x| x.0 == *k) {
                    None => return here(format!("no {:?} in {}", k, clipj(g)), path),
                    Some(x) => {
                        path.push(k.clone());
                        if let Some(d) = jdiff(v, &x.1, path) {
                            return Some(d);
                        }
                        path.pop();
                    }
                }
            }
            if let Some(x) = b.iter().find(|x| !a.iter().any(|y| y.0 == x.0)) {
                return here(format!("{:?} is no field here: {}", x.0, clipj(g)), path);
            }
            path.pop();
            None
        }
        (J::Arr(a), J::Arr(b)) => {
            for (x, y) in a.iter().zip(b) {
                if let Some(d) = jdiff(x, y, path) {
                    return Some(d);
                }
            }
            if a.len() != b.len() {
                return here(format!("expected {} elements, got {}", a.len(), b.len()), path);
            }
            None
        }
        (J::Num(a), J::Num(b)) => {
            let f = |s: &str| s.parse::<f64>().ok();
            if f(a).is_some() && f(a) == f(b) {
                None
            } else {
                here(format!("expected {} got {}", a, b), path)
            }
        }
        (a, b) if a == b => None,
        (a, b) => here(format!("expected {} got {}", clipj(a), clipj(b)), path),
    }
}

// ------------------------------------------------------------------ the expected tree

fn s(x: &str) -> J {
    J::Str(x.to_string())
}

fn node(ty: &str, n: &T, fields: Vec<(&str, J)>) -> J {
    let mut v = vec![("type".to_string(), s(ty))];
    v.extend(fields.into_iter().map(|(k, x)| (k.to_string(), x)));
    v.push(("start".into(), J::Num(n.start.to_string())));
    v.push(("end".into(), J::Num(n.end.to_string())));
    J::Obj(v)
}

/// The mathematical value of a numeric literal, rounded once
pub fn number(raw: &str) -> f64 {
    let b = raw.as_bytes();
    let digits = |d: &str, radix: u32| -> f64 {
        // exact decimal digits first, rounded by the decimal parser
        let mut dec: Vec<u8> = vec![0];
        for c in d.chars() {
            let mut carry = c.to_digit(radix).unwrap();
            for x in dec.iter_mut() {
                let v = *x as u32 * radix + carry;
                *x = (v % 10) as u8;
                carry = v / 10;
            }
            while carry > 0 {
                dec.push((carry % 10) as u8);
                carry /= 10;
            }
        }
        dec.iter().rev().map(|x| (b'0' + x) as char).collect::<String>().parse().unwrap()
    };
    match b.get(1) {
        Some(b'x' | b'X') => digits(&raw[2..], 16),
        Some(b'o' | b'O') => digits(&raw[2..], 8),
        Some(b'b' | b'B') => digits(&raw[2..], 2),
        Some(_) if b[0] == b'0' && b.iter().all(|c| (b'0'..=b'7').contains(c)) => digits(&raw[1..], 8),
        _ => raw.parse().unwrap(),
    }
}

fn all(l: &[T], f: fn(&T) -> J) -> J {
    J::Arr(l.iter().map(f).collect())
}

fn opt(n: &T, f: fn(&T) -> J) -> J {
    if n.is(K::Nil) {
        J::Null
    } else {
        f(n)
    }
}

fn ident(n: &T) -> J {
    node("Identifier", n, vec![("name", s(&n.s))])
}

fn key(n: &T) -> J {
    if n.is(K::KeyComp) {
        any(&n.c[0])
    } else {
        ident(n)
    }
}

fn comp(n: &T) -> J {
    J::Bool(n.is(K::KeyComp))
}

fn function(ty: &str, n: &T) -> J {
    node(ty, n, vec![("generator", J::Bool(n.s == "*")), ("id", opt(&n.c[0], ident)), ("params", all(&n.c[1].c, any)), ("body", any(&n.c[2]))])
}

fn class(ty: &str, n: &T) -> J {
    node(ty, n, vec![("id", opt(&n.c[0], ident)), ("superClass", opt(&n.c[1], any)), ("body", any(&n.c[2]))])
}

fn assign(op: &str) -> bool {
    op.ends_with('=') && !matches!(op, "==" | "===" | "!=" | "!==" | "<=" | ">=")
}

fn template(n: &T) -> J {
    let q: Vec<&T> = n.c.iter().filter(|x| x.is(K::Quasi)).collect();
    let last = q.len();
    let quasis = q
        .iter()
        .enumerate()
        .map(|(i, x)| {
            let mut at = (*x).clone();
            at.start += 1;
            at.end -= 1;
            node("TemplateElement", &at, vec![("tail", J::Bool(i + 1 == last)), ("value", J::Obj(vec![("raw".into(), s(&x.s)), ("cooked".into(), s(&x.s))]))])
        })
        .collect();
    node("TemplateLiteral", n, vec![("quasis", J::Arr(quasis)), ("expressions", J::Arr(n.c.iter().filter(|x| !x.is(K::Quasi)).map(any).collect()))])
}

fn elements(c: &[T], hole: K) -> J {
    J::Arr(c.iter().map(|x| if x.is(hole) { J::Null } else { any(x) }).collect())
}

/// ESTree of a node
pub fn any(n: &T) -> J {
    use K::*;
    let c = |i: usize| any(&n.c[i]);
    let o = |i: usize| opt(&n.c[i], any);
    let lit = |v: J, raw: &str| node("Literal", n, vec![("value", v), ("raw", s(raw))]);
    match n.k {
        Module => {
            let mut at = n.clone();
            at.start = n.c.first().map_or(0, |x| x.start);
            at.end = n.c.last().map_or(0, |x| x.end);
            node("Program", &at, vec![("body", all(&n.c, any))])
        }
        Empty => node("EmptyStatement", n, vec![]),
        Debugger => node("DebuggerStatement", n, vec![]),
        ExprStmt => node("ExpressionStatement", n, vec![("expression", c(0))]),
        Decl => node("VariableDeclaration", n, vec![("kind", s(&n.s)), ("declarations", all(&n.c, any))]),
        Declarator => node("VariableDeclarator", n, vec![("id", c(0)), ("init", o(1))]),
        Return => node("ReturnStatement", n, vec![("argument", o(0))]),
        Break => node("BreakStatement", n, vec![("label", opt(&n.c[0], ident))]),
        Continue => node("ContinueStatement", n, vec![("label", opt(&n.c[0], ident))]),
        Throw => node("ThrowStatement", n, vec![("argument", c(0))]),
        If => node("IfStatement", n, vec![("test", c(0)), ("consequent", c(1)), ("alternate", o(2))]),
        While => node("WhileStatement", n, vec![("test", c(0)), ("body", c(1))]),
        Do => node("DoWhileStatement", n, vec![("body", c(0)), ("test", c(1))]),
        For => node("ForStatement", n, vec![("init", o(0)), ("test", o(1)), ("update", o(2)), ("body", c(3))]),
        ForIn => node("ForInStatement", n, vec![("left", c(0)), ("right", c(1)), ("body", c(2))]),
        ForOf => node("ForOfStatement", n, vec![("left", c(0)), ("right", c(1)), ("body", c(2))]),
        Try => node("TryStatement", n, vec![("block", c(0)), ("handler", o(1)), ("finalizer", o(2))]),
        Catch => node("CatchClause", n, vec![("param", c(0)), ("body", c(1))]),
        Block => node("BlockStatement", n, vec![("body", all(&n.c, any))]),
        Labeled => node("LabeledStatement", n, vec![("label", s(&n.s)), ("body", c(0))]),
        Switch => node("SwitchStatement", n, vec![("discriminant", c(0)), ("cases", all(&n.c[1..], any))]),
        Case => node("SwitchCase", n, vec![("test", o(0)), ("consequent", all(&n.c[1..], any))]),
        Import => node("ImportDeclaration", n, vec![("specifiers", all(&n.c, any)), ("source", s(&n.s))]),
        ImportSpec => node("ImportSpecifier", n, vec![("imported", ident(&n.c[0])), ("local", ident(&n.c[1]))]),
        ImportDefault => node("ImportDefaultSpecifier", n, vec![("local", ident(&n.c[0]))]),
        ImportNs => node("ImportNamespaceSpecifier", n, vec![("local", ident(&n.c[0]))]),
        FnDecl => function("FunctionDeclaration", n),
        FnExpr | Method => function("FunctionExpression", n),
        ClassDecl => class("ClassDeclaration", n),
        ClassExpr => class("ClassExpression", n),
        ClassBody => node("ClassBody", n, vec![("body", all(&n.c, any))]),
        CMethod => {
            let (st, kind) = match n.s.strip_prefix("static ") {
                Some(k) => (true, k),
                None => (false, n.s.as_str()),
            };
            node("MethodDefinition", n, vec![("kind", s(kind)), ("static", J::Bool(st)), ("computed", comp(&n.c[0])), ("key", key(&n.c[0])), ("value", c(1))])
        }
        CField => node("PropertyDefinition", n, vec![("static", J::Bool(n.s == "static")), ("computed", comp(&n.c[0])), ("key", key(&n.c[0])), ("value", c(1))]),
        PShort => ident(n),
        PKV | PMethod => node(
            "Property",
            n,
            vec![("key", key(&n.c[0])), ("method", J::Bool(n.is(PMethod))), ("shorthand", J::Bool(false)), ("computed", comp(&n.c[0])), ("value", c(1)), ("kind", s("init"))],
        ),
        PSpread => node("SpreadProperty", n, vec![("argument", c(0))]),
        Name | Ident | PatIdent => ident(n),
        This => node("ThisExpression", n, vec![]),
        LitUndefined => node("Literal", n, vec![("raw", s("undefined"))]),
        LitNull => lit(J::Null, "null"),
        LitTrue => lit(J::Bool(true), "true"),
        LitFalse => lit(J::Bool(false), "false"),
        LitNum | LitBin => {
            let v = number(&n.s);
            lit(if v.is_finite() { J::Num(format!("{:e}", v)) } else { J::Null }, &n.s)
        }
        LitStr => lit(s(&n.s[1..n.s.len() - 1]), &n.s),
        LitRe => {
            let e = n.s.rfind('/').unwrap();
            node("Literal", n, vec![("regex", J::Obj(vec![("pattern".into(), s(&n.s[1..e])), ("flags".into(), s(&n.s[e + 1..]))])), ("raw", s(&n.s))])
        }
        Seq => node("SequenceExpression", n, vec![("expressions", all(&n.c, any))]),
        Array => {
            // the tests have it so: no hole at the end
            let c = &n.c[..n.c.iter().rposition(|x| !x.is(Void)).map_or(0, |i| i + 1)];
            node("ArrayExpression", n, vec![("elements", elements(c, Void))])
        }
        Object => node("ObjectExpression", n, vec![("properties", all(&n.c, any))]),
        Member => node("MemberExpression", n, vec![("object", c(0)), ("property", ident(&n.c[1])), ("computed", J::Bool(false))]),
        CMember => node("MemberExpression", n, vec![("object", c(0)), ("property", c(1)), ("computed", J::Bool(true))]),
        Meta => node("MetaProperty", n, vec![("meta", ident(&n.c[0])), ("property", ident(&n.c[1]))]),
        Call => node("CallExpression", n, vec![("callee", c(0)), ("arguments", all(&n.c[1..], any))]),
        Binary => {
            let ty = if assign(&n.s) {
                "AssignmentExpression"
            } else if n.s == "&&" || n.s == "||" {
                "LogicalExpression"
            } else {
                "BinaryExpression"
            };
            node(ty, n, vec![("operator", s(&n.s)), ("left", c(0)), ("right", c(1))])
        }
        Prefix if n.s == "new" => {
            let x = &n.c[0];
            let (callee, args) = if x.is(Call) { (any(&x.c[0]), all(&x.c[1..], any)) } else { (any(x), J::Arr(vec![])) };
            node("NewExpression", n, vec![("callee", callee), ("arguments", args)])
        }
        Prefix | Postfix => {
            let ty = if n.s == "++" || n.s == "--" { "UpdateExpression" } else { "UnaryExpression" };
            node(ty, n, vec![("operator", s(&n.s)), ("argument", c(0)), ("prefix", J::Bool(n.is(Prefix)))])
        }
        Cond => node("ConditionalExpression", n, vec![("test", c(0)), ("consequent", c(1)), ("alternate", c(2))]),
        Template => template(n),
        Tagged => node("TaggedTemplateExpression", n, vec![("tag", c(0)), ("quasi", c(1))]),
        Spread => node("SpreadElement", n, vec![("argument", c(0))]),
        Arrow => node("ArrowFunctionExpression", n, vec![("params", all(&n.c[0].c, any)), ("body", c(1))]),
        PatObj => node("ObjectPattern", n, vec![("keys", all(&n.c, any))]),
        PatArr => node("ArrayPattern", n, vec![("elements", elements(&n.c, PatVoid))]),
        PatRest => node("RestElement", n, vec![("argument", ident(&n.c[0]))]),
        PatAssign => node("AssignmentPattern", n, vec![("left", c(0)), ("right", c(1))]),
        Nil | Void | PatVoid | Params | KeyLit | KeyBin | KeyComp | Quasi | ErrorNode => J::Null,
    }
}

pub fn c06(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let m = ratel::parse(&p.src).map_err(|e| bad("rejected", errs(&e), &*p.src))?;
    let got = conv::module(&m);
    same("tree", &p.tree, &got, &p.src)?;
    note(ctx, &p);
    // spans of the tree, content of the model (they agree on everything else by now)
    let text = serde_json::to_string(&m).map_err(|e| bad("serialisation failed", e.to_string(), &*p.src))?;
    let json = parse(&text).map_err(|e| bad(format!("not JSON: {}", e.split(" at ").next().unwrap_or("")), format!("{}: {}", e, clip(&text)), &*p.src))?;
    ctx.stats.count("json_bytes", text.len() as u64);
    got.walk(&mut |x| ctx.stats.seen("kinds", x.k as u64));
    if let Some((sig, d)) = jdiff(&any(&got), &json, &mut vec![]) {
        return Err(bad(format!("ESTree: {}", sig), d, &*p.src));
    }
    // the same through another format, which holds the serialiser to the numbers of fields and items it announces
    let other = serde::Serialize::serialize(&m, super::announce::Format).map_err(|e| bad("announced", e.0, &*p.src))?;
    if let Some((sig, d)) = jdiff(&json, &other, &mut vec![]) {
        return Err(bad(format!("another format: {}", sig), d, &*p.src));
    }
    ctx.stats.count("other_format", 1);
    // numbers on their own, also as only sloppy code has them
    for _ in 0..2 {
        let raw = match ctx.r.below(30) {
            0..=9 => crate::synth::number(&mut ctx.r),
            10 | 11 => crate::synth::long_number(&mut ctx.r),
            _ => {
                // with an 8 or a 9 it is a decimal one
                let n = ctx.r.range(1, 30);
                let odd = if ctx.r.chance(1, 3) { ctx.r.below(n) } else { n };
                std::iter::once('0').chain((0..n).map(|i| (b'0' + if i == odd { 8 + ctx.r.below(2) } else { ctx.r.below(8) } as u8) as char)).collect()
            }
        };
        let src = format!("({});", raw);
        let Ok(m) = ratel::parse(&src) else { continue };
        let got = conv::module(&m);
        let text = serde_json::to_string(&m).map_err(|e| bad("serialisation failed", e.to_string(), &*src))?;
        let json = parse(&text).map_err(|e| bad("not JSON", format!("{}: {}", e, clip(&text)), &*src))?;
        if let Some((sig, d)) = jdiff(&any(&got), &json, &mut vec![]) {
            return Err(bad(format!("ESTree of a number: {}", sig), d, &*src));
        }
        ctx.stats.count("numbers", 1);
    }
    Ok(())
}
