//! ratel AST -> reference model tree. Only public API; carries the positions ratel recorded.
use crate::tree::*;
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::{
    Class, ClassMember, Declarator, DeclarationKind, Expression, Function, IdentifierNode, Literal,
    Loc, MandatoryName, MethodKind, Name, Node, NodeList, OptionalName, EmptyName, Pattern,
    Property, PropertyKey, Statement,
};
use ratel::Module;

fn at<X>(n: &Loc<X>, mut x: T) -> T {
    x.start = n.start;
    x.end = n.end;
    x
}

thread_local! {
    static RAW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

thread_local! {
    static PLACES: std::cell::RefCell<Option<Vec<usize>>> = const { std::cell::RefCell::new(None) };
}

/// The raw tree, and the address of what is held by each of its statements and expressions, in the
/// order of a walk; 0 for one that has no node of its own
pub fn places(m: &Module) -> (T, Vec<usize>) {
    PLACES.with(|p| *p.borrow_mut() = Some(vec![]));
    let x = raw_module(m);
    (x, PLACES.with(|p| p.borrow_mut().take().unwrap()))
}
fn place(at: usize) {
    PLACES.with(|p| {
        if let Some(v) = p.borrow_mut().as_mut() {
            v.push(at)
        }
    })
}

/// The tree with the hole ratel records for a trailing comma
pub fn raw_module(m: &Module) -> T {
    RAW.with(|r| r.set(true));
    let x = module(m);
    RAW.with(|r| r.set(false));
    x
}
fn raw() -> bool {
    RAW.with(|r| r.get())
}

pub fn module(m: &Module) -> T {
    let mut c = vec![];
    for s in m.body().iter() {
        c.push(stmt(s));
    }
    t(K::Module, "", c)
}

fn stmts<'a>(l: &NodeList<'a, Statement<'a>>) -> Vec<T> {
    l.iter().map(|s| stmt(s)).collect()
}

fn name(n: &IdentifierNode) -> T {
    at(n, leaf(K::Name, n.item))
}

fn opt_expr<'a>(e: &Option<Node<'a, Expression<'a>>>) -> T {
    match e {
        Some(e) => expr(e),
        None => nil(),
    }
}

fn block<'a>(n: &Loc<BlockStatement<'a>>) -> T {
    place(0);
    at(n, t(K::Block, "", stmts(&n.item.body)))
}

pub fn stmt<'a>(n: &Loc<Statement<'a>>) -> T {
    use Statement::*;
    place(n as *const _ as usize);
    let x = match n.item {
        Empty => t(K::Empty, "", vec![]),
        Debugger => t(K::Debugger, "", vec![]),
        Expression(ref e) => t(K::ExprStmt, "", vec![expr(e)]),
        Declaration(ref d) => decl(d),
        Return(ref r) => t(K::Return, "", vec![opt_expr(&r.value)]),
        Break(ref b) => t(K::Break, "", vec![b.label.as_ref().map(name).unwrap_or(nil())]),
        Continue(ref b) => t(K::Continue, "", vec![b.label.as_ref().map(name).unwrap_or(nil())]),
        Throw(ref x) => t(K::Throw, "", vec![expr(&x.value)]),
        If(ref i) => t(
            K::If,
            "",
            vec![
                expr(&i.test),
                stmt(&i.consequent),
                i.alternate.as_ref().map(|a| stmt(a)).unwrap_or(nil()),
            ],
        ),
        While(ref w) => t(K::While, "", vec![expr(&w.test), stmt(&w.body)]),
        Do(ref w) => t(K::Do, "", vec![stmt(&w.body), expr(&w.test)]),
        For(ref f) => t(
            K::For,
            "",
            vec![
                f.init.as_ref().map(|i| for_init(i)).unwrap_or(nil()),
                opt_expr(&f.test),
                opt_expr(&f.update),
                stmt(&f.body),
            ],
        ),
        ForIn(ref f) => t(K::ForIn, "", vec![for_init(&f.left), expr(&f.right), stmt(&f.body)]),
        ForOf(ref f) => t(K::ForOf, "", vec![for_init(&f.left), expr(&f.right), stmt(&f.body)]),
        Try(ref x) => t(
            K::Try,
            "",
            vec![
                block(&x.block),
                x.handler
                    .as_ref()
                    .map(|h| at(h, t(K::Catch, "", vec![pat(&h.param), block(&h.body)])))
                    .unwrap_or(nil()),
                x.finalizer.as_ref().map(|b| block(b)).unwrap_or(nil()),
            ],
        ),
        Block(ref b) => t(K::Block, "", stmts(&b.body)),
        Labeled(ref l) => t(K::Labeled, l.label, vec![stmt(&l.body)]),
        Function(ref f) => func(f, K::FnDecl, |n: &MandatoryName| name(&n.0)),
        Class(ref c) => class(c, K::ClassDecl, |n: &MandatoryName| name(&n.0)),
        Switch(ref s) => {
            let mut c = vec![expr(&s.discriminant)];
            for case in s.cases.body.iter() {
                let mut k = vec![opt_expr(&case.test)];
                k.extend(stmts(&case.consequent));
                c.push(at(case, t(K::Case, "", k)));
            }
            t(K::Switch, "", c)
        }
        Import(ref i) => {
            let c = i
                .specifiers
                .iter()
                .map(|s| {
                    at(
                        s,
                        match s.item {
                            ForImportSpecifier::ImportSpecifier(ref x) => {
                                t(K::ImportSpec, "", vec![name(&x.imported), name(&x.local)])
                            }
                            ForImportSpecifier::ImportDefaultSpecifier(ref x) => {
                                t(K::ImportDefault, "", vec![name(&x.local)])
                            }
                            ForImportSpecifier::ImportNamespaceSpecifier(ref x) => {
                                t(K::ImportNs, "", vec![name(&x.local)])
                            }
                        },
                    )
                })
                .collect();
            t(K::Import, i.source, c)
        }
    };
    at(n, x)
}

fn decl(d: &DeclarationStatement) -> T {
    let kind = match d.kind {
        DeclarationKind::Var => "var",
        DeclarationKind::Let => "let",
        DeclarationKind::Const => "const",
    };
    let c = d
        .declarators
        .iter()
        .map(|x: &Node<Declarator>| at(x, t(K::Declarator, "", vec![pat(&x.id), opt_expr(&x.init)])))
        .collect();
    t(K::Decl, kind, c)
}

fn for_init<'a>(n: &Loc<ForInit<'a>>) -> T {
    match n.item {
        ForInit::Declaration(ref d) => {
            place(0);
            at(n, decl(d))
        }
        ForInit::Expression(ref e) => expr(e),
    }
}

fn func<'a, N: Name<'a>, F: Fn(&N) -> T>(f: &Function<'a, N>, k: K, nm: F) -> T {
    t(
        k,
        if f.generator { "*" } else { "" },
        vec![
            nm(&f.name),
            t(K::Params, "", f.params.iter().map(|p| pat(p)).collect()),
            block(&f.body),
        ],
    )
}

fn opt_name(n: &OptionalName) -> T {
    n.0.as_ref().map(name).unwrap_or(nil())
}

fn method<'a>(n: &Loc<Function<'a, EmptyName>>) -> T {
    at(n, func(&n.item, K::Method, |_| nil()))
}

fn class<'a, N: Name<'a>, F: Fn(&N) -> T>(c: &Class<'a, N>, k: K, nm: F) -> T {
    let extends = opt_expr(&c.extends);
    let body = c
        .body
        .body
        .iter()
        .map(|m| {
            at(
                m,
                match m.item {
                    ClassMember::Error => leaf(K::ErrorNode, "ClassMember::Error"),
                    ClassMember::Method { is_static, ref key, kind, ref value } => {
                        let kind = match kind {
                            MethodKind::Constructor => "constructor",
                            MethodKind::Method => "method",
                            MethodKind::Get => "get",
                            MethodKind::Set => "set",
                        };
                        let s = format!("{}{}", if is_static { "static " } else { "" }, kind);
                        t(K::CMethod, &s, vec![pkey(key), method(value)])
                    }
                    ClassMember::Literal { is_static, ref key, ref value } => t(
                        K::CField,
                        if is_static { "static" } else { "" },
                        vec![pkey(key), expr(value)],
                    ),
                },
            )
        })
        .collect();
    t(
        k,
        "",
        vec![
            nm(&c.name),
            extends,
            at(&c.body, t(K::ClassBody, "", body)),
        ],
    )
}

fn pkey<'a>(n: &Loc<PropertyKey<'a>>) -> T {
    at(
        n,
        match n.item {
            PropertyKey::Computed(ref e) => t(K::KeyComp, "", vec![expr(e)]),
            PropertyKey::Literal(s) => leaf(K::KeyLit, s),
            PropertyKey::Binary(s) => leaf(K::KeyBin, s),
        },
    )
}

fn prop<'a>(n: &Loc<Property<'a>>) -> T {
    at(
        n,
        match n.item {
            Property::Shorthand(s) => leaf(K::PShort, s),
            Property::Literal { ref key, ref value } => t(K::PKV, "", vec![pkey(key), expr(value)]),
            Property::Method { ref key, ref value } => {
                t(K::PMethod, "", vec![pkey(key), method(value)])
            }
            Property::Spread { ref argument } => t(K::PSpread, "", vec![expr(argument)]),
        },
    )
}

fn template<'a>(x: &TemplateLiteral<'a>) -> T {
    let mut c = vec![];
    let mut es = x.expressions.iter();
    for q in x.quasis.iter() {
        c.push(at(q, leaf(K::Quasi, q.item)));
        if let Some(e) = es.next() {
            c.push(expr(e));
        }
    }
    for e in es {
        c.push(expr(e));
    }
    t(K::Template, "", c)
}

pub fn expr<'a>(n: &Loc<Expression<'a>>) -> T {
    use Expression::*;
    place(n as *const _ as usize);
    let list = |l: &NodeList<'a, Expression<'a>>| l.iter().map(|e| expr(e)).collect::<Vec<T>>();
    let x = match n.item {
        Void => leaf(K::Void, ""),
        This(_) => leaf(K::This, ""),
        Identifier(s) => leaf(K::Ident, s),
        Literal(l) => match l {
            self::Literal::Undefined => leaf(K::LitUndefined, ""),
            self::Literal::Null => leaf(K::LitNull, ""),
            self::Literal::True => leaf(K::LitTrue, ""),
            self::Literal::False => leaf(K::LitFalse, ""),
            self::Literal::Number(s) => leaf(K::LitNum, s),
            self::Literal::Binary(s) => leaf(K::LitBin, s),
            self::Literal::String(s) => leaf(K::LitStr, s),
            self::Literal::RegEx(s) => leaf(K::LitRe, s),
        },
        Sequence(ref s) => t(K::Seq, "", list(&s.body)),
        Array(ref a) => {
            let mut c = list(&a.body);
            // ratel records a trailing comma as a trailing Void element
            if !raw() && c.last().map(|x| x.k) == Some(K::Void) {
                c.pop();
            }
            t(K::Array, "", c)
        }
        Member(ref m) => t(K::Member, "", vec![expr(&m.object), name(&m.property)]),
        ComputedMember(ref m) => t(K::CMember, "", vec![expr(&m.object), expr(&m.property)]),
        MetaProperty(ref m) => t(K::Meta, "", vec![name(&m.meta), name(&m.property)]),
        Call(ref c) => {
            let mut v = vec![expr(&c.callee)];
            v.extend(list(&c.arguments));
            t(K::Call, "", v)
        }
        Binary(ref b) => t(K::Binary, b.operator.as_str(), vec![expr(&b.left), expr(&b.right)]),
        Prefix(ref p) => t(K::Prefix, p.operator.as_str(), vec![expr(&p.operand)]),
        Postfix(ref p) => t(K::Postfix, p.operator.as_str(), vec![expr(&p.operand)]),
        Conditional(ref c) => t(
            K::Cond,
            "",
            vec![expr(&c.test), expr(&c.consequent), expr(&c.alternate)],
        ),
        Template(ref x) => template(x),
        TaggedTemplate(ref x) => t(
            K::Tagged,
            "",
            vec![expr(&x.tag), {
                place(0);
                at(&x.quasi, template(&x.quasi.item))
            }],
        ),
        Spread(ref s) => t(K::Spread, "", vec![expr(&s.argument)]),
        Arrow(ref a) => {
            let ps = t(K::Params, "", a.params.iter().map(|p| pat(p)).collect());
            match a.body {
                ArrowBody::Expression(ref e) => t(K::Arrow, "expr", vec![ps, expr(e)]),
                ArrowBody::Block(ref b) => t(K::Arrow, "block", vec![ps, block(b)]),
            }
        }
        Object(ref o) => t(K::Object, "", o.body.iter().map(|p| prop(p)).collect()),
        Function(ref f) => func(f, K::FnExpr, opt_name),
        Class(ref c) => class(c, K::ClassExpr, opt_name),
    };
    at(n, x)
}

pub fn pat<'a>(n: &Loc<Pattern<'a>>) -> T {
    let x = match n.item {
        Pattern::Void => leaf(K::PatVoid, ""),
        Pattern::Identifier(s) => leaf(K::PatIdent, s),
        Pattern::ObjectPattern { ref properties } => {
            t(K::PatObj, "", properties.iter().map(|p| prop(p)).collect())
        }
        Pattern::ArrayPattern { ref elements } => {
            let mut c: Vec<T> = elements.iter().map(|p| pat(p)).collect();
            if !raw() && c.last().map(|x| x.k) == Some(K::PatVoid) {
                c.pop();
            }
            t(K::PatArr, "", c)
        }
        Pattern::RestElement { ref argument } => t(K::PatRest, "", vec![name(argument)]),
        Pattern::AssignmentPattern { ref left, ref right } => {
            t(K::PatAssign, "", vec![pat(left), expr(right)])
        }
    };
    at(n, x)
}
