//! C22: a tree that was edited, through the cells that hold its nodes, is the edited tree for everyone.
use super::visit::{check_scope, compare, es2015, positions, scopes, Expect, Recorder};
use super::*;
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::{Block, Expression, ExpressionNode, Function, Loc, Name, Node, OperatorKind, OptionalName, PropertyKey, Property, Statement, StatementNode};
use ratel_codegen::codegen;
use ratel_transformer::scope::Scope;
use ratel_transformer::{scope, transform, TransformerCtxt};
use ratel_visitor::{ScopeKind, Visitable};
use std::collections::{BTreeSet, HashMap};

pub(super) fn is_stmt(k: K) -> bool {
    matches!(
        k,
        K::Empty
            | K::Debugger
            | K::ExprStmt
            | K::Decl
            | K::Return
            | K::Break
            | K::Continue
            | K::Throw
            | K::If
            | K::While
            | K::Do
            | K::For
            | K::ForIn
            | K::ForOf
            | K::Try
            | K::Block
            | K::Labeled
            | K::Switch
            | K::Import
            | K::FnDecl
            | K::ClassDecl
    )
}

fn is_expr(k: K) -> bool {
    matches!(
        k,
        K::FnExpr
            | K::ClassExpr
            | K::Void
            | K::This
            | K::Ident
            | K::LitUndefined
            | K::LitNull
            | K::LitTrue
            | K::LitFalse
            | K::LitNum
            | K::LitBin
            | K::LitStr
            | K::LitRe
            | K::Seq
            | K::Array
            | K::Object
            | K::Member
            | K::CMember
            | K::Meta
            | K::Call
            | K::Binary
            | K::Prefix
            | K::Postfix
            | K::Cond
            | K::Template
            | K::Tagged
            | K::Spread
            | K::Arrow
    )
}

/// Where something else can stand: (index of the statement or expression, statement?, what holds it)
pub(super) struct Place {
    pub at: usize,
    pub stmt: bool,
    pub parent: K,
    pub kind: K,
    /// anything, or only an expression statement, a block, a throw
    pub list: bool,
    /// the operand of `new`
    pub made: bool,
}

#[derive(Clone, Copy)]
pub(super) enum Mode {
    /// an expression
    Free,
    /// something assigned to
    Target,
    /// part of a pattern
    Pattern,
}

pub(super) struct Finder {
    pub n: usize,
    pub made: bool,
    pub out: Vec<Place>,
}

impl Finder {
    pub fn go(&mut self, t: &T, parent: K, list: bool, mode: Mode) {
        let made = std::mem::replace(&mut self.made, false);
        let mut at = usize::MAX;
        if is_stmt(t.k) || is_expr(t.k) {
            at = self.n;
            self.n += 1;
        }
        let inner = match mode {
            Mode::Pattern => Mode::Pattern,
            _ if t.is(K::PatObj) => Mode::Pattern,
            Mode::Target if t.is(K::Object) || t.is(K::Array) => Mode::Pattern,
            _ => Mode::Free,
        };
        if matches!(mode, Mode::Free) {
            if is_stmt(t.k) {
                let body = matches!(parent, K::If | K::While | K::Do | K::For | K::ForIn | K::ForOf | K::Labeled) && matches!(t.k, K::ExprStmt | K::Block | K::Throw);
                if list || body {
                    self.out.push(Place { at, stmt: true, parent, kind: t.k, list, made: false });
                }
            } else if is_expr(t.k) && !matches!(t.k, K::Void | K::Spread | K::Meta) {
                self.out.push(Place { at, stmt: false, parent, kind: t.k, list: false, made });
            }
        }
        for (i, c) in t.c.iter().enumerate() {
            let list = match t.k {
                K::Block | K::Module => true,
                K::Case => i > 0,
                _ => false,
            };
            let m = match (t.k, i) {
                _ if matches!(inner, Mode::Pattern) => Mode::Pattern,
                (K::Binary, 0) if gen::is_assign(&t.s) => Mode::Target,
                (K::Prefix | K::Postfix, 0) if t.s == "++" || t.s == "--" => Mode::Target,
                (K::ForIn | K::ForOf, 0) if !c.is(K::Decl) => Mode::Target,
                // JSON takes the place of the head of a loop, not of the expression that is it
                (K::For, 0) if !c.is(K::Decl) && !c.is(K::Nil) => Mode::Target,
                // the template has no cell of its own
                (K::Tagged, 1) => Mode::Target,
                _ => Mode::Free,
            };
            self.made = t.is(K::Prefix) && t.s == "new";
            self.go(c, t.k, list, m);
        }
    }
}

/// The n-th statement or expression
pub(super) fn nth<'t>(t: &'t mut T, n: &mut usize) -> Option<&'t mut T> {
    if is_stmt(t.k) || is_expr(t.k) {
        if *n == 0 {
            return Some(t);
        }
        *n -= 1;
    }
    for c in &mut t.c {
        if let Some(x) = nth(c, n) {
            return Some(x);
        }
    }
    None
}

/// What printing and parsing leaves of the tree: a trailing comma makes no hole
pub(super) fn cook(t: &T) -> T {
    let mut x = t.clone();
    x.walk_mut(&mut |x| {
        let hole = x.c.last().map(|l| l.k);
        if (x.is(K::Array) && hole == Some(K::Void)) || (x.is(K::PatArr) && hole == Some(K::PatVoid)) {
            x.c.pop();
        }
    });
    x
}

fn at(k: K, s: &str, c: Vec<T>, (start, end): (u32, u32)) -> T {
    T { k, s: s.to_string(), c, start, end }
}

fn ident(s: &str) -> T {
    leaf(K::Ident, s)
}

pub(super) type Cells<'a> = (T, Vec<usize>, HashMap<usize, &'a ExpressionNode<'a>>, HashMap<usize, &'a StatementNode<'a>>);

/// The tree and the cells that hold its nodes
pub(super) fn cells<'a>(m: &'a ratel::Module<'a>) -> Cells<'a> {
    let (tree, places) = conv::places(m);
    let mut r = Recorder::default();
    m.visit_with(&mut r);
    let es = r.exprs.iter().map(|n| (&***n as *const Loc<Expression> as usize, *n)).collect();
    let ss = r.stmts.iter().map(|n| (&***n as *const Loc<Statement> as usize, *n)).collect();
    (tree, places, es, ss)
}

fn look(what: &str, exp: &T, m: &ratel::Module, src: &str) -> Res {
    let got = conv::raw_module(m);
    same(what, exp, &got, src)?;
    if let Some(w) = positions(exp, &got) {
        return Err(bad(format!("{}: location", what), w, src));
    }
    Ok(())
}

fn new_loc<'a, X: Copy>(n: Node<'a, X>) -> &'a Loc<X> {
    let mut n = n;
    *n.get_mut()
}

/// `import(x)` can only begin a statement, and stand nowhere else
pub fn calls_import(t: &T) -> bool {
    let mut is = false;
    t.walk(&mut |x| is |= x.is(K::Ident) && x.s == "import");
    is
}

pub fn c22(ctx: &mut Ctx) -> Res {
    // a program, followed by what will be moved into it
    let mut tree = gen::program(&mut ctx.r, ctx.idx, true);
    gen::famous(&mut ctx.r, &mut tree);
    if calls_import(&tree) {
        return Ok(());
    }
    let first = tree.c.len();
    let n_src = ctx.r.range(1, 6);
    let mut tries = 0;
    while tree.c.len() < first + n_src && tries < 40 {
        tries += 1;
        let i = ctx.r.next() % (2 * gen::pair_count() as u64);
        let t = gen::program(&mut ctx.r, i, false);
        for s in t.c {
            let s = gen::strip_meta(s);
            if s.is(K::Import) || calls_import(&s) || s.count() > 60 || gen::open_if(&s) || tree.c.len() >= first + n_src {
                continue;
            }
            tree.c.push(s);
        }
    }
    let p = write(ctx, tree);
    let m = match ratel::parse(&p.src) {
        Ok(m) => m,
        Err(_) => {
            ctx.stats.inconclusive += 1;
            return Ok(());
        }
    };
    if diff(&p.tree, &conv::module(&m)).is_some() {
        ctx.stats.inconclusive += 1;
        return Ok(());
    }
    let m = super::isolate::local(&m);
    // what the readers say before must not matter afterwards
    if ctx.r.chance(1, 2) {
        let _ = (codegen(m, true).len(), serde_json::to_string(m).map(|s| s.len()), scope::analyze(m).used_this.get());
    }
    let arena = m.arena();
    let mut tc = TransformerCtxt { arena, scope: arena.alloc(Scope::new(ScopeKind::Function, None)) };
    let mut how = vec![];
    let mut used = BTreeSet::new();
    let mut exp = conv::raw_module(m);
    for _ in 0..ctx.r.range(1, 5) {
        let (t, places, es, ss) = cells(m);
        let mut f = Finder { n: 0, made: false, out: vec![] };
        let upto = T { k: K::Module, s: String::new(), c: t.c[..first].to_vec(), start: 0, end: 0 };
        f.go(&upto, K::Nil, false, Mode::Free);
        let (known, total) = (f.out.iter().filter(|x| if x.stmt { ss.contains_key(&places[x.at]) } else { es.contains_key(&places[x.at]) }).count(), f.out.len());
        ctx.stats.count("places_with_cells", known as u64);
        ctx.stats.count("places_without_cells", (total - known) as u64);
        if known == 0 {
            break;
        }
        let place = loop {
            let x = &f.out[ctx.r.below(total)];
            let ok = if x.stmt { ss.contains_key(&places[x.at]) } else { es.contains_key(&places[x.at]) };
            if ok {
                break x;
            }
        };
        // something to put there
        let src: Vec<usize> = (first..t.c.len()).filter(|i| !used.contains(i) && (place.stmt || t.c[*i].is(K::ExprStmt))).collect();
        let mut k = place.at;
        let old = nth(&mut exp, &mut k).unwrap();
        let op = ctx.r.below(3);
        let desc;
        if place.stmt {
            let cell = ss[&places[place.at]];
            let src: Vec<usize> = src.into_iter().filter(|i| ss.contains_key(&(&***m.body().iter().nth(*i).as_ref().unwrap() as *const Loc<Statement> as usize)) && (place.list || matches!(t.c[*i].k, K::ExprStmt | K::Block | K::Throw))).collect();
            let wrap = src.is_empty() || ctx.r.chance(1, 3);
            if wrap {
                if place.kind == K::Import {
                    continue;
                }
                let was = *cell;
                let o = old.clone();
                let (item, model): (Statement, T) = match ctx.r.below(4) {
                    0 => (Block { body: tc.list([was]) }.into(), t_(K::Block, vec![o])),
                    1 if matches!(place.kind, K::ExprStmt | K::Block | K::Throw) => {
                        let s = IfStatement { test: tc.alloc("yes"), consequent: was, alternate: None };
                        if !place.list {
                            continue;
                        }
                        (s.into(), t_(K::If, vec![ident("yes"), o, nil()]))
                    }
                    2 => {
                        let e = tc.alloc("before");
                        let s = tc.alloc(Statement::Expression(e));
                        (Block { body: tc.list([s, was]) }.into(), t_(K::Block, vec![t_(K::ExprStmt, vec![ident("before")]), o]))
                    }
                    _ => {
                        let e = tc.alloc("cond");
                        let body = tc.list(vec![was]);
                        let b = tc.alloc(Statement::Block(Block { body }));
                        (WhileStatement { test: e, body: b }.into(), t_(K::While, vec![ident("cond"), t_(K::Block, vec![o])]))
                    }
                };
                let pos = (old.start, old.end);
                if op == 0 {
                    tc.swap(cell, item);
                    *old = T { start: pos.0, end: pos.1, ..model };
                } else if op == 1 {
                    cell.set(new_loc(tc.alloc(item)));
                    *old = model;
                } else {
                    let n: StatementNode = tc.alloc_as_loc(cell, item);
                    cell.set(new_loc(n));
                    *old = T { start: pos.0, end: pos.1, ..model };
                }
                desc = format!("a {:?} around the {:?} in a {:?}", old.k, place.kind, place.parent);
            } else {
                let i = *ctx.r.pick(&src);
                used.insert(i);
                let from = ss[&(&***m.body().iter().nth(i).as_ref().unwrap() as *const Loc<Statement> as usize)];
                desc = format!("a {:?} for the {:?} in a {:?}", t.c[i].k, place.kind, place.parent);
                put(&tc, op, cell, from, old, &t.c[i]);
                let e = tc.alloc("moved");
                from.set(new_loc(tc.alloc(Statement::Expression(e))));
                exp.c[i] = t_(K::ExprStmt, vec![ident("moved")]);
            }
        } else {
            let cell = es[&places[place.at]];
            let of = |i: usize| t.c[i].c[0].clone();
            let src: Vec<usize> = src.into_iter().filter(|i| !matches!(t.c[*i].c[0].k, K::Meta)).collect();
            let handle = |i: usize| match m.body().iter().nth(i).unwrap().item {
                Statement::Expression(ref e) => es.get(&(&**e as *const Loc<Expression> as usize)).copied(),
                _ => None,
            };
            let src: Vec<usize> = src.into_iter().filter(|i| handle(*i).is_some()).collect();
            let more = if src.is_empty() { None } else { Some(*ctx.r.pick(&src)) };
            if more.is_none() || ctx.r.chance(1, 2) {
                let was = *cell;
                let o = old.clone();
                // one more expression, moved from the end of the program when there is one
                let (x, mx) = match more {
                    Some(i) => {
                        used.insert(i);
                        (*handle(i).unwrap(), of(i))
                    }
                    None => (tc.alloc("x"), ident("x")),
                };
                let (item, model) = wrap(ctx, &mut tc, was, x, o, mx);
                let pos = (old.start, old.end);
                match op {
                    0 => {
                        tc.swap(cell, item);
                        *old = T { start: pos.0, end: pos.1, ..model };
                    }
                    1 => {
                        cell.set(new_loc(tc.alloc(item)));
                        *old = model;
                    }
                    _ => {
                        let n: ExpressionNode = tc.alloc_as_loc(cell, item);
                        cell.set(new_loc(n));
                        *old = T { start: pos.0, end: pos.1, ..model };
                    }
                }
                desc = format!("a {:?} {} around the {:?} in a {:?}", old.k, old.s, place.kind, place.parent);
            } else {
                let i = more.unwrap();
                used.insert(i);
                desc = format!("a {:?} for the {:?} in a {:?}", of(i).k, place.kind, place.parent);
                put(&tc, op, cell, handle(i).unwrap(), old, &of(i));
            }
            if let Some(i) = more.filter(|i| used.contains(i)) {
                let s = match m.body().iter().nth(i).unwrap().item {
                    Statement::Expression(ref e) => e,
                    _ => unreachable!(),
                };
                let e = es[&(&**s as *const Loc<Expression> as usize)];
                e.set(new_loc(tc.alloc("moved")));
                exp.c[i].c[0] = ident("moved");
            }
        }
        ctx.stats.seen("edits", crate::rng::fnv(format!("{} {}", op, desc).as_bytes()));
        ctx.stats.count("edits", 1);
        how.push(desc);
        look(&format!("after {}", how.last().unwrap()), &exp, m, &p.src)?;
    }
    if how.is_empty() {
        ctx.stats.inconclusive += 1;
        return Ok(());
    }
    let all = how.join(", then ");
    let with = |e: Bad| Bad { msg: format!("after {}: {}", all, e.msg), ..e };
    readers(ctx, m, &exp, &p.src).map_err(with)?;
    if ctx.idx % 4 == 0 {
        transform(m);
        exp = es2015(&exp);
        look("transformed", &exp, m, &p.src).map_err(with)?;
        readers(ctx, m, &exp, &p.src).map_err(with)?;
    }
    note(ctx, &p);
    Ok(())
}

fn t_(k: K, c: Vec<T>) -> T {
    t(k, "", c)
}

/// Put what is in one cell into another
fn put<'a, X: Copy>(tc: &TransformerCtxt<'a>, op: usize, cell: &Node<'a, X>, from: &Node<'a, X>, old: &mut T, new: &T) {
    match op {
        0 => {
            tc.swap(cell, from.item);
            *old = T { start: old.start, end: old.end, ..new.clone() };
        }
        1 => {
            cell.set(new_loc(*from));
            *old = new.clone();
        }
        _ => {
            let n: Node<X> = tc.alloc(from.item);
            cell.set(new_loc(n));
            *old = T { start: 0, end: 0, ..new.clone() };
        }
    }
}

const BINARY: &[(OperatorKind, &str)] = &[
    (OperatorKind::Multiplication, "*"),
    (OperatorKind::Exponent, "**"),
    (OperatorKind::Division, "/"),
    (OperatorKind::Addition, "+"),
    (OperatorKind::Subtraction, "-"),
    (OperatorKind::BitShiftLeft, "<<"),
    (OperatorKind::UBitShiftRight, ">>>"),
    (OperatorKind::Lesser, "<"),
    (OperatorKind::GreaterEquals, ">="),
    (OperatorKind::Instanceof, "instanceof"),
    (OperatorKind::In, "in"),
    (OperatorKind::StrictInequality, "!=="),
    (OperatorKind::Equality, "=="),
    (OperatorKind::BitwiseAnd, "&"),
    (OperatorKind::BitwiseXor, "^"),
    (OperatorKind::BitwiseOr, "|"),
    (OperatorKind::LogicalAnd, "&&"),
    (OperatorKind::LogicalOr, "||"),
];
const ASSIGN: &[(OperatorKind, &str)] = &[(OperatorKind::Assign, "="), (OperatorKind::ExponentAssign, "**="), (OperatorKind::UBSRAssign, ">>>="), (OperatorKind::DivideAssign, "/=")];
const PREFIX: &[(OperatorKind, &str)] = &[
    (OperatorKind::LogicalNot, "!"),
    (OperatorKind::BitwiseNot, "~"),
    (OperatorKind::Typeof, "typeof"),
    (OperatorKind::Void, "void"),
    (OperatorKind::Delete, "delete"),
    (OperatorKind::New, "new"),
    (OperatorKind::Addition, "+"),
    (OperatorKind::Subtraction, "-"),
];

/// A new expression with two others in it
fn wrap<'a>(ctx: &mut Ctx, tc: &mut TransformerCtxt<'a>, a: ExpressionNode<'a>, b: ExpressionNode<'a>, ma: T, mb: T) -> (Expression<'a>, T) {
    let r = &mut ctx.r;
    let (a, b, ma, mb) = if r.chance(1, 2) { (a, b, ma, mb) } else { (b, a, mb, ma) };
    match r.below(16) {
        0 => (CallExpression { callee: a, arguments: tc.list([b]) }.into(), t_(K::Call, vec![ma, mb])),
        1 => {
            let f = tc.alloc("f");
            (CallExpression { callee: f, arguments: tc.list([a, b]) }.into(), t_(K::Call, vec![ident("f"), ma, mb]))
        }
        2 => {
            let none: [ExpressionNode; 0] = [];
            let arguments = tc.list(none);
            let c: ExpressionNode = tc.alloc(CallExpression { callee: a, arguments });
            (SequenceExpression { body: tc.list([c, b]) }.into(), t_(K::Seq, vec![t_(K::Call, vec![ma]), mb]))
        }
        3 => (SequenceExpression { body: tc.list([a, b]) }.into(), t_(K::Seq, vec![ma, mb])),
        4 => {
            // between them any number of names
            let n = if r.chance(1, 2) { r.range(0, 12) } else { r.range(0, 300) };
            let mut v = vec![a];
            let mut m = vec![ma];
            for _ in 0..n {
                v.push(tc.alloc("between"));
                m.push(ident("between"));
            }
            v.push(b);
            m.push(mb);
            match r.below(3) {
                0 => (ArrayExpression { body: tc.list(v) }.into(), t_(K::Array, m)),
                1 => (SequenceExpression { body: tc.list(v) }.into(), t_(K::Seq, m)),
                _ => {
                    let f = tc.alloc("f");
                    m.insert(0, ident("f"));
                    (CallExpression { callee: f, arguments: tc.list(v) }.into(), t_(K::Call, m))
                }
            }
        }
        5 | 6 | 7 => {
            let (o, s) = r.pick(BINARY);
            (BinaryExpression { operator: *o, left: a, right: b }.into(), t(K::Binary, s, vec![ma, mb]))
        }
        8 => {
            let (o, s) = r.pick(ASSIGN);
            let name = tc.alloc("name");
            let x: ExpressionNode = tc.alloc(MemberExpression { object: a, property: name });
            (BinaryExpression { operator: *o, left: x, right: b }.into(), t(K::Binary, s, vec![t_(K::Member, vec![ma, leaf(K::Name, "name")]), mb]))
        }
        9 => {
            let (o, s) = r.pick(PREFIX);
            let x: ExpressionNode = tc.alloc(PrefixExpression { operator: *o, operand: a });
            let x = x.item;
            (ConditionalExpression { test: tc.alloc(x), consequent: b, alternate: tc.alloc("z") }.into(), t_(K::Cond, vec![t(K::Prefix, s, vec![ma]), mb, ident("z")]))
        }
        10 => (ComputedMemberExpression { object: a, property: b }.into(), t_(K::CMember, vec![ma, mb])),
        11 => {
            let x = tc.alloc(ComputedMemberExpression { object: a, property: b });
            (PostfixExpression { operator: OperatorKind::Increment, operand: x }.into(), t(K::Postfix, "++", vec![t_(K::CMember, vec![ma, mb])]))
        }
        12 => {
            let none: [Node<ratel::ast::Pattern>; 0] = [];
            let body = tc.list([a, b]);
            let x: ExpressionNode = tc.alloc(SequenceExpression { body });
            (ArrowExpression { params: tc.list(none), body: ArrowBody::Expression(x) }.into(), t(K::Arrow, "expr", vec![t_(K::Params, vec![]), t_(K::Seq, vec![ma, mb])]))
        }
        13 => {
            let s1 = tc.alloc(Statement::Expression(a));
            let s2 = tc.alloc(ReturnStatement { value: Some(b) });
            let body = tc.list([s1, s2]);
            let p = ratel::ast::PatternList::empty();
            let f: FunctionExpression = Function { name: OptionalName::empty(), generator: r.chance(1, 2), params: p, body: tc.alloc(Block { body }) };
            let g = if f.generator { "*" } else { "" };
            (f.into(), t(K::FnExpr, g, vec![nil(), t_(K::Params, vec![]), t_(K::Block, vec![t_(K::ExprStmt, vec![ma]), t_(K::Return, vec![mb])])]))
        }
        14 => {
            let k1 = tc.alloc(PropertyKey::Literal("key"));
            let k2 = tc.alloc(PropertyKey::Computed(a));
            let p1 = tc.alloc(Property::Literal { key: k2, value: b });
            let v = tc.alloc("v");
            let p2 = tc.alloc(Property::Literal { key: k1, value: v });
            (
                ObjectExpression { body: tc.list([p1, p2]) }.into(),
                t_(K::Object, vec![t_(K::PKV, vec![t_(K::KeyComp, vec![ma]), mb]), t_(K::PKV, vec![leaf(K::KeyLit, "key"), ident("v")])]),
            )
        }
        _ => {
            let f = tc.alloc("f");
            let s = tc.alloc(SpreadExpression { argument: b });
            let arguments = tc.list([a, s]);
            let x = tc.alloc(CallExpression { callee: f, arguments });
            let name = tc.alloc("name");
            (MemberExpression { object: x, property: name }.into(), t_(K::Member, vec![t_(K::Call, vec![ident("f"), ma, t_(K::Spread, vec![mb])]), leaf(K::Name, "name")]))
        }
    }
}

/// Everything that reads a tree, against the tree it should be
fn readers<'a>(ctx: &mut Ctx, m: &'a ratel::Module<'a>, raw: &T, src: &str) -> Res {
    let exp = cook(raw);
    for minify in [true, false] {
        let mode = if minify { "minified" } else { "pretty" };
        let out = codegen(m, minify);
        ctx.stats.count("printed_bytes", out.len() as u64);
        match ratel::parse(&out) {
            Err(e) => return Err(bad(format!("{} output of the edited tree does not parse", mode), format!("{}\noutput: {}", errs(&e), out), src)),
            Ok(m2) => {
                if let Some(d) = diff(&exp, &conv::module(&m2)) {
                    return Err(bad(format!("{} output of the edited tree: {}", mode, diff_kind(&d)), format!("{}\noutput: {}", d, out), src));
                }
            }
        }
    }
    let text = serde_json::to_string(m).map_err(|e| bad("serialisation failed", e.to_string(), src))?;
    let json = super::estree::parse(&text).map_err(|e| bad("not JSON", format!("{}: {}", e, clip(&text)), src))?;
    if let Some((sig, d)) = super::estree::jdiff(&super::estree::any(&exp), &json, &mut vec![]) {
        return Err(bad(format!("ESTree of the edited tree: {}", sig), d, src));
    }
    let mut r = Recorder::default();
    m.visit_with(&mut r);
    if let Some(w) = r.wrong {
        return Err(bad("callback of another kind", w, src));
    }
    let mut x = Expect::default();
    x.list(&raw.c);
    compare("traversal of the edited tree", &x.ev, &r.ev, src)?;
    let mut n = (0, 0);
    check_scope(&scopes(&x.ev), scope::analyze(m), None, &BTreeSet::new(), "", src, &mut n)?;
    let text = format!("{:?}", m.body());
    match super::view::read(&text) {
        Err(e) => return Err(bad("debug text cannot be read", format!("{}\n{}", e, clip(&text)), src)),
        Ok(x) => same("debug text of the edited tree", &exp, &x, src)?,
    }
    look("after reading", raw, m, src)
}
