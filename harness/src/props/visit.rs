//! C11 the traversal, C12 scope analysis, C13 the ES2015 transform; each against the model tree.
use super::*;
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::{DeclarationKind, Expression, ExpressionNode, Identifier, Literal, Statement, StatementList, StatementNode};
use ratel_codegen::codegen;
use ratel_transformer::{scope, transform};
use ratel_visitor::{ParentNode, ScopeKind, Visitable, Visitor};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E<'a> {
    /// callback for a node: its kind, what the item says, its range
    On(K, &'a str, u32, u32),
    Push(K, u32, u32),
    Pop,
    /// statement list: length, where its first statement starts
    List(usize, u32),
    Enter(ScopeKind),
    Leave,
    Use(&'a str),
    Decl(&'a str),
}

// ------------------------------------------------------------------ what happens

fn ekind(e: &Expression) -> K {
    use Expression::*;
    match e {
        Void => K::Void,
        This(_) => K::This,
        Identifier(_) => K::Ident,
        Literal(l) => match l {
            self::Literal::Undefined => K::LitUndefined,
            self::Literal::Null => K::LitNull,
            self::Literal::True => K::LitTrue,
            self::Literal::False => K::LitFalse,
            self::Literal::Number(_) => K::LitNum,
            self::Literal::Binary(_) => K::LitBin,
            self::Literal::String(_) => K::LitStr,
            self::Literal::RegEx(_) => K::LitRe,
        },
        Sequence(_) => K::Seq,
        Array(_) => K::Array,
        Member(_) => K::Member,
        ComputedMember(_) => K::CMember,
        MetaProperty(_) => K::Meta,
        Call(_) => K::Call,
        Binary(_) => K::Binary,
        Prefix(_) => K::Prefix,
        Postfix(_) => K::Postfix,
        Conditional(_) => K::Cond,
        Template(_) => K::Template,
        TaggedTemplate(_) => K::Tagged,
        Spread(_) => K::Spread,
        Arrow(_) => K::Arrow,
        Object(_) => K::Object,
        Function(_) => K::FnExpr,
        Class(_) => K::ClassExpr,
    }
}

fn skind(s: &Statement) -> K {
    use Statement::*;
    match s {
        Empty => K::Empty,
        Debugger => K::Debugger,
        Expression(_) => K::ExprStmt,
        Declaration(_) => K::Decl,
        Return(_) => K::Return,
        Break(_) => K::Break,
        Continue(_) => K::Continue,
        Throw(_) => K::Throw,
        If(_) => K::If,
        While(_) => K::While,
        Do(_) => K::Do,
        For(_) => K::For,
        ForIn(_) => K::ForIn,
        ForOf(_) => K::ForOf,
        Try(_) => K::Try,
        Labeled(_) => K::Labeled,
        Block(_) => K::Block,
        Function(_) => K::FnDecl,
        Class(_) => K::ClassDecl,
        Switch(_) => K::Switch,
        Import(_) => K::Import,
    }
}

#[derive(Default)]
pub struct Recorder<'ast> {
    pub ev: Vec<E<'ast>>,
    /// calls of a callback with a node of another kind
    pub wrong: Option<String>,
    pub exprs: Vec<&'ast ExpressionNode<'ast>>,
    pub stmts: Vec<&'ast StatementNode<'ast>>,
}

impl<'ast> Recorder<'ast> {
    fn e(&mut self, k: K, s: &'ast str, node: &'ast ExpressionNode<'ast>) {
        self.exprs.push(node);
        self.expr(k, s, node)
    }
    fn expr(&mut self, k: K, s: &'ast str, node: &ExpressionNode<'ast>) {
        if ekind(&node.item) != k && self.wrong.is_none() {
            self.wrong = Some(format!("the callback for {:?} got a node that is {:?}", k, ekind(&node.item)));
        }
        self.ev.push(E::On(k, s, node.start, node.end));
    }
    fn s(&mut self, k: K, s: &'ast str, node: &'ast StatementNode<'ast>) {
        self.stmts.push(node);
        if skind(&node.item) != k && self.wrong.is_none() {
            self.wrong = Some(format!("the callback for {:?} got a node that is {:?}", k, skind(&node.item)));
        }
        self.ev.push(E::On(k, s, node.start, node.end));
    }
}

impl<'ast> Visitor<'ast> for Recorder<'ast> {
    fn push_parent(&mut self, node: ParentNode<'ast>) {
        self.ev.push(match node {
            ParentNode::Statement(n) => E::Push(skind(&n.item), n.start, n.end),
            ParentNode::Expression(n) => E::Push(ekind(&n.item), n.start, n.end),
        });
    }
    fn pop_parent(&mut self) {
        self.ev.push(E::Pop)
    }
    fn on_statement_list(&mut self, body: StatementList<'ast>) {
        self.ev.push(E::List(body.iter().count(), body.iter().next().map(|s| s.start).unwrap_or(0)));
    }
    fn on_enter_scope(&mut self, kind: ScopeKind) {
        self.ev.push(E::Enter(kind))
    }
    fn on_leave_scope(&mut self) {
        self.ev.push(E::Leave)
    }
    fn on_reference_use(&mut self, ident: &Identifier<'ast>) {
        self.ev.push(E::Use(*ident))
    }
    fn on_reference_declaration(&mut self, ident: &Identifier<'ast>) {
        self.ev.push(E::Decl(*ident))
    }
    fn on_this_expression(&mut self, node: &'ast ExpressionNode<'ast>) {
        self.e(K::This, "", node)
    }
    fn on_identifier_expression(&mut self, item: &Identifier<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Ident, *item, node)
    }
    fn on_literal_expression(&mut self, item: &Literal<'ast>, node: &'ast ExpressionNode<'ast>) {
        let (k, s) = match *item {
            Literal::Undefined => (K::LitUndefined, ""),
            Literal::Null => (K::LitNull, ""),
            Literal::True => (K::LitTrue, ""),
            Literal::False => (K::LitFalse, ""),
            Literal::Number(s) => (K::LitNum, s),
            Literal::Binary(s) => (K::LitBin, s),
            Literal::String(s) => (K::LitStr, s),
            Literal::RegEx(s) => (K::LitRe, s),
        };
        self.e(k, s, node)
    }
    fn on_sequence_expression(&mut self, _: &SequenceExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Seq, "", node)
    }
    fn on_array_expression(&mut self, _: &ArrayExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Array, "", node)
    }
    fn on_member_expression(&mut self, item: &MemberExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Member, item.property.item, node)
    }
    fn on_computed_member_expression(&mut self, _: &ComputedMemberExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::CMember, "", node)
    }
    fn on_meta_property(&mut self, item: &MetaPropertyExpression<'ast>, node: &ExpressionNode<'ast>) {
        self.expr(K::Meta, item.property.item, node)
    }
    fn on_call_expression(&mut self, _: &CallExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Call, "", node)
    }
    fn on_binary_expression(&mut self, item: &BinaryExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Binary, item.operator.as_str(), node)
    }
    fn on_prefix_expression(&mut self, item: &PrefixExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Prefix, item.operator.as_str(), node)
    }
    fn on_postfix_expression(&mut self, item: &PostfixExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Postfix, item.operator.as_str(), node)
    }
    fn on_conditional_expression(&mut self, _: &ConditionalExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Cond, "", node)
    }
    fn on_template_literal(&mut self, _: &TemplateLiteral<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Template, "", node)
    }
    fn on_tagged_template_expression(&mut self, _: &TaggedTemplateExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Tagged, "", node)
    }
    fn on_spread_expression(&mut self, _: &SpreadExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Spread, "", node)
    }
    fn on_arrow_expression(&mut self, item: &ArrowExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        let s = match item.body {
            ArrowBody::Expression(_) => "expr",
            ArrowBody::Block(_) => "block",
        };
        self.e(K::Arrow, s, node)
    }
    fn on_object_expression(&mut self, _: &ObjectExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::Object, "", node)
    }
    fn on_function_expression(&mut self, item: &FunctionExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::FnExpr, if item.generator { "*" } else { "" }, node)
    }
    fn on_class_expression(&mut self, _: &ClassExpression<'ast>, node: &'ast ExpressionNode<'ast>) {
        self.e(K::ClassExpr, "", node)
    }
    fn on_expression_statement(&mut self, _: &'ast ExpressionNode<'ast>, node: &'ast StatementNode<'ast>) {
        self.s(K::ExprStmt, "", node)
    }
    fn on_declaration_statement(&mut self, item: &DeclarationStatement, node: &'ast StatementNode<'ast>) {
        let s = match item.kind {
            DeclarationKind::Var => "var",
            DeclarationKind::Let => "let",
            DeclarationKind::Const => "const",
        };
        self.s(K::Decl, s, node)
    }
    fn on_return_statement(&mut self, _: &ReturnStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Return, "", node)
    }
    fn on_break_statement(&mut self, _: &BreakStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Break, "", node)
    }
    fn on_continue_statement(&mut self, _: &ContinueStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Continue, "", node)
    }
    fn on_throw_statement(&mut self, _: &ThrowStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Throw, "", node)
    }
    fn on_if_statement(&mut self, _: &IfStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::If, "", node)
    }
    fn on_while_statement(&mut self, _: &WhileStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::While, "", node)
    }
    fn on_do_statement(&mut self, _: &DoStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Do, "", node)
    }
    fn on_for_statement(&mut self, _: &ForStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::For, "", node)
    }
    fn on_for_in_statement(&mut self, _: &ForInStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::ForIn, "", node)
    }
    fn on_for_of_statement(&mut self, _: &ForOfStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::ForOf, "", node)
    }
    fn on_try_statement(&mut self, _: &TryStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Try, "", node)
    }
    fn on_block_statement(&mut self, _: &BlockStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.s(K::Block, "", node)
    }
    fn on_labeled_statement(&mut self, _: &LabeledStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Labeled, "", node)
    }
    fn on_switch_statement(&mut self, _: &SwitchStatement, node: &'ast StatementNode<'ast>) {
        self.s(K::Switch, "", node)
    }
    fn on_function_statement(&mut self, item: &FunctionStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.s(K::FnDecl, if item.generator { "*" } else { "" }, node)
    }
    fn on_class_statement(&mut self, _: &ClassStatement<'ast>, node: &'ast StatementNode<'ast>) {
        self.s(K::ClassDecl, "", node)
    }
    fn on_import_declaration_statement(&mut self, item: &ImportDeclaration<'ast>, node: &'ast StatementNode<'ast>) {
        self.s(K::Import, item.source, node)
    }
}

// ------------------------------------------------------------------ what should happen

#[derive(Default)]
pub struct Expect<'a> {
    pub ev: Vec<E<'a>>,
}

impl<'a> Expect<'a> {
    fn on(&mut self, t: &'a T) {
        let s: &str = match t.k {
            K::Member | K::Meta => &t.c[1].s,
            K::Labeled => "",
            _ => &t.s,
        };
        self.ev.push(E::On(t.k, s, t.start, t.end));
    }
    fn push(&mut self, t: &T) {
        self.ev.push(E::Push(t.k, t.start, t.end));
    }
    pub fn list(&mut self, l: &'a [T]) {
        self.ev.push(E::List(l.len(), l.first().map(|x| x.start).unwrap_or(0)));
        for s in l {
            self.stmt(s);
        }
    }
    fn decl(&mut self, t: &'a T) {
        for d in &t.c {
            self.pat(&d.c[0]);
            self.opt(&d.c[1]);
        }
    }
    fn opt(&mut self, t: &'a T) {
        if !t.is(K::Nil) {
            self.expr(t);
        }
    }
    /// the head of a for statement
    fn head(&mut self, t: &'a T) {
        match t.k {
            K::Decl => self.decl(t),
            _ => self.opt(t),
        }
    }
    fn scope(&mut self, k: ScopeKind, f: impl FnOnce(&mut Self)) {
        self.ev.push(E::Enter(k));
        f(self);
        self.ev.push(E::Leave);
    }
    /// [name, parameters, block]
    fn func(&mut self, t: &'a T) {
        self.scope(ScopeKind::Function, |v| {
            for p in &t.c[1].c {
                v.pat(p);
            }
            v.list(&t.c[2].c);
        });
    }
    /// [name, extends, body]
    fn class(&mut self, t: &'a T) {
        self.opt(&t.c[1]);
        for m in &t.c[2].c {
            self.key(&m.c[0]);
            match m.k {
                K::CMethod => self.func(&m.c[1]),
                _ => self.expr(&m.c[1]),
            }
        }
    }
    fn key(&mut self, t: &'a T) {
        if t.is(K::KeyComp) {
            self.expr(&t.c[0]);
        }
    }
    pub fn stmt(&mut self, t: &'a T) {
        if t.is(K::Empty) || t.is(K::Debugger) {
            return;
        }
        self.on(t);
        self.push(t);
        match t.k {
            K::Decl => self.decl(t),
            K::Break | K::Continue => {}
            K::If => {
                self.expr(&t.c[0]);
                self.stmt(&t.c[1]);
                if !t.c[2].is(K::Nil) {
                    self.stmt(&t.c[2]);
                }
            }
            K::While => {
                self.expr(&t.c[0]);
                self.stmt(&t.c[1]);
            }
            K::Do => {
                self.stmt(&t.c[0]);
                self.expr(&t.c[1]);
            }
            K::For => {
                self.head(&t.c[0]);
                self.opt(&t.c[1]);
                self.opt(&t.c[2]);
                self.stmt(&t.c[3]);
            }
            K::ForIn | K::ForOf => {
                self.head(&t.c[0]);
                self.expr(&t.c[1]);
                self.stmt(&t.c[2]);
            }
            K::Try => {
                self.scope(ScopeKind::Block, |v| v.list(&t.c[0].c));
                if t.c[1].is(K::Catch) {
                    self.scope(ScopeKind::Block, |v| {
                        v.pat(&t.c[1].c[0]);
                        v.list(&t.c[1].c[1].c);
                    });
                }
                if !t.c[2].is(K::Nil) {
                    self.scope(ScopeKind::Block, |v| v.list(&t.c[2].c));
                }
            }
            K::Block => self.scope(ScopeKind::Block, |v| v.list(&t.c)),
            K::Labeled => self.stmt(&t.c[0]),
            K::Switch => {
                self.expr(&t.c[0]);
                self.scope(ScopeKind::Block, |v| {
                    for c in &t.c[1..] {
                        v.opt(&c.c[0]);
                        v.list(&c.c[1..]);
                    }
                });
            }
            K::Import => {
                for s in &t.c {
                    self.ev.push(E::Decl(&s.c.last().unwrap().s));
                }
            }
            K::FnDecl => {
                self.ev.push(E::Decl(&t.c[0].s));
                self.func(t);
            }
            K::ClassDecl => {
                self.ev.push(E::Decl(&t.c[0].s));
                self.class(t);
            }
            // ExprStmt, Return, Throw
            _ => {
                for c in &t.c {
                    self.opt(c);
                }
            }
        }
        self.ev.push(E::Pop);
    }
    pub fn expr(&mut self, t: &'a T) {
        match t.k {
            K::Void => return,
            K::This | K::LitUndefined | K::LitNull | K::LitTrue | K::LitFalse | K::LitNum | K::LitBin | K::LitStr | K::LitRe => {
                self.on(t);
                return;
            }
            _ => {}
        }
        self.on(t);
        self.push(t);
        match t.k {
            K::Ident => self.ev.push(E::Use(&t.s)),
            K::Member => self.expr(&t.c[0]),
            K::Meta => {}
            K::Template => self.template(t),
            K::Tagged => {
                self.expr(&t.c[0]);
                self.template(&t.c[1]);
            }
            K::Arrow => self.scope(ScopeKind::Function, |v| {
                for p in &t.c[0].c {
                    v.pat(p);
                }
                match t.c[1].k {
                    K::Block => v.list(&t.c[1].c),
                    _ => v.expr(&t.c[1]),
                }
            }),
            K::Object => {
                for p in &t.c {
                    self.prop(p);
                }
            }
            K::FnExpr => self.func(t),
            K::ClassExpr => self.class(t),
            // Seq, Array, CMember, Call, Binary, Prefix, Postfix, Cond, Spread
            _ => {
                for c in &t.c {
                    self.expr(c);
                }
            }
        }
        self.ev.push(E::Pop);
    }
    fn template(&mut self, t: &'a T) {
        for c in &t.c {
            if !c.is(K::Quasi) {
                self.expr(c);
            }
        }
    }
    fn prop(&mut self, p: &'a T) {
        match p.k {
            K::PShort => self.ev.push(E::Use(&p.s)),
            K::PKV => {
                self.key(&p.c[0]);
                self.expr(&p.c[1]);
            }
            K::PMethod => {
                self.key(&p.c[0]);
                self.func(&p.c[1]);
            }
            _ => self.expr(&p.c[0]),
        }
    }
    fn pat(&mut self, t: &'a T) {
        match t.k {
            K::PatIdent => self.ev.push(E::Decl(&t.s)),
            K::PatObj => {
                for p in &t.c {
                    self.bind_prop(p);
                }
            }
            K::PatArr => {
                for p in &t.c {
                    self.pat(p);
                }
            }
            K::PatRest => self.ev.push(E::Decl(&t.c[0].s)),
            K::PatAssign => {
                self.pat(&t.c[0]);
                self.expr(&t.c[1]);
            }
            _ => {}
        }
    }
    fn bind_prop(&mut self, p: &'a T) {
        match p.k {
            K::PShort => self.ev.push(E::Decl(&p.s)),
            K::PKV => {
                self.key(&p.c[0]);
                self.bind(&p.c[1]);
            }
            K::PSpread => self.bind(&p.c[0]),
            _ => self.prop(p),
        }
    }
    /// an expression that stands for a pattern
    fn bind(&mut self, t: &'a T) {
        match t.k {
            K::Ident => self.ev.push(E::Decl(&t.s)),
            K::Object => {
                for p in &t.c {
                    self.bind_prop(p);
                }
            }
            K::Array => {
                for e in &t.c {
                    self.bind(e);
                }
            }
            K::Spread => self.bind(&t.c[0]),
            K::Binary if t.s == "=" => {
                self.bind(&t.c[0]);
                self.expr(&t.c[1]);
            }
            _ => self.expr(t),
        }
    }
}

fn kind_of(e: &E) -> String {
    match e {
        E::On(k, ..) => format!("on {:?}", k),
        E::Push(k, ..) => format!("push {:?}", k),
        E::List(..) => "list".into(),
        E::Use(_) => "use".into(),
        E::Decl(_) => "declaration".into(),
        E::Enter(k) => format!("enter {:?}", k),
        E::Pop => "pop".into(),
        E::Leave => "leave".into(),
    }
}

pub(super) fn compare(what: &str, exp: &[E], got: &[E], src: &str) -> Res {
    if exp == got {
        return Ok(());
    }
    let i = exp.iter().zip(got).take_while(|(a, b)| a == b).count();
    let at = |v: &[E]| v.get(i).map(kind_of).unwrap_or("the end".into());
    Err(bad(format!("{}: {} instead of {}", what, at(got), at(exp)), format!("{}: event {} of {} is {:?} instead of {:?}; before it: {:?}", what, i, exp.len(), got.get(i), exp.get(i), &got[i.saturating_sub(6)..i]), src))
}

/// Parse what the model says; None when it does not parse to the model (another property's matter)
fn parsed<'a>(ctx: &mut Ctx, p: &'a Printed) -> Option<(ratel::Module<'a>, T)> {
    let m = match ratel::parse(&p.src) {
        Ok(m) => m,
        Err(_) => {
            ctx.stats.inconclusive += 1;
            return None;
        }
    };
    let t = conv::module(&m);
    if diff(&p.tree, &t).is_some() {
        ctx.stats.inconclusive += 1;
        return None;
    }
    Some((m, t))
}

pub fn c11(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let (m, tree) = match parsed(ctx, &p) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut r = Recorder::default();
    m.visit_with(&mut r);
    if let Some(w) = r.wrong {
        return Err(bad("callback of another kind", w, &*p.src));
    }
    let mut x = Expect::default();
    x.list(&tree.c);
    ctx.stats.count("events", r.ev.len() as u64);
    for w in r.ev.windows(2) {
        ctx.stats.seen("event_pairs", crate::rng::fnv(format!("{}{}", kind_of(&w[0]), kind_of(&w[1])).as_bytes()));
        if ctx.idx % 16 != 0 {
            break;
        }
    }
    compare("traversal", &x.ev, &r.ev, &p.src)?;
    // from one statement on
    let n = tree.c.len();
    if n > 0 {
        let i = ctx.r.below(n);
        let mut r = Recorder::default();
        m.body().iter().nth(i).unwrap().visit_with(&mut r);
        let mut x = Expect::default();
        x.stmt(&tree.c[i]);
        compare("traversal of a statement", &x.ev, &r.ev, &p.src)?;
    }
    // looking does not change anything
    same("tree changed by visiting", &tree, &conv::module(&m), &p.src)?;
    note(ctx, &p);
    Ok(())
}

// ------------------------------------------------------------------ scopes

#[derive(Default)]
pub(super) struct S<'a> {
    kind: Option<ScopeKind>,
    used: BTreeSet<&'a str>,
    declared: BTreeSet<&'a str>,
    this: bool,
    children: Vec<S<'a>>,
}

pub(super) fn scopes<'a>(ev: &[E<'a>]) -> S<'a> {
    let mut stack = vec![S { kind: Some(ScopeKind::Function), ..S::default() }];
    for e in ev {
        let top = stack.last_mut().unwrap();
        match *e {
            E::Enter(k) => stack.push(S { kind: Some(k), ..S::default() }),
            E::Leave => {
                let s = stack.pop().unwrap();
                stack.last_mut().unwrap().children.push(s);
            }
            E::Use(n) => {
                top.used.insert(n);
            }
            E::Decl(n) => {
                top.declared.insert(n);
            }
            E::On(K::This, ..) => top.this = true,
            _ => {}
        }
    }
    stack.pop().unwrap()
}

pub(super) fn check_scope<'a>(exp: &S, got: &'a scope::Scope<'a>, parent: Option<&'a scope::Scope<'a>>, names: &BTreeSet<&'a str>, path: &str, src: &str, n: &mut (u64, u64)) -> Res {
    let fail = |kind: &str, msg: String| Err(bad(kind, format!("scope {}: {}", path, msg), src));
    n.0 += 1;
    if Some(got.kind) != exp.kind {
        return fail("scope kind", format!("{:?} instead of {:?}", got.kind, exp.kind));
    }
    match (parent, got.parent) {
        (None, None) => {}
        (Some(a), Some(b)) if std::ptr::eq(a, b) => {}
        (a, b) => return fail("scope parent", format!("parent is {:?} instead of {:?}", b.map(|s| s as *const _), a.map(|s| s as *const _))),
    }
    if got.used_this.get() != exp.this {
        return fail("scope this", format!("used_this is {}", got.used_this.get()));
    }
    if got.used_super.get() {
        return fail("scope super", "used_super without super".into());
    }
    for (what, map, set) in [("used", &got.used_refs, &exp.used), ("declared", &got.declared_refs, &exp.declared)] {
        let have: Vec<&str> = map.iter().map(|(k, _)| *k).collect();
        let uniq: BTreeSet<&str> = have.iter().copied().collect();
        if have.len() != uniq.len() {
            return fail("scope names", format!("{} names are listed twice: {:?}", what, have));
        }
        if &uniq != set {
            let missing: Vec<_> = set.difference(&uniq).collect();
            let extra: Vec<_> = uniq.difference(set).collect();
            return fail(&format!("scope {} names", what), format!("{} names: missing {:?}, not there in the program {:?}", what, missing, extra));
        }
        if map.is_empty() != set.is_empty() {
            return fail("scope names", format!("{} is_empty is {}", what, map.is_empty()));
        }
        for name in names {
            n.1 += 1;
            if map.contains_key(name) != set.contains(name) {
                return fail("scope lookup", format!("{} contains_key({:?}) is {}", what, name, map.contains_key(name)));
            }
            if map.get(name).is_some() != set.contains(name) {
                return fail("scope lookup", format!("{} get({:?}) is {:?}", what, name, map.get(name)));
            }
        }
    }
    let kids: Vec<_> = got.children.as_list().iter().map(|s| *s).collect();
    if kids.len() != exp.children.len() {
        return fail("scope children", format!("{} children instead of {}", kids.len(), exp.children.len()));
    }
    for (i, (e, g)) in exp.children.iter().zip(kids).enumerate() {
        if g == got || g != g {
            return fail("scope equality", format!("child {} equals its parent or differs from itself", i));
        }
        check_scope(e, g, Some(got), names, &format!("{}/{}", path, i), src, n)?;
    }
    Ok(())
}

pub fn c12(ctx: &mut Ctx) -> Res {
    let p = make(ctx);
    let (m, tree) = match parsed(ctx, &p) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut x = Expect::default();
    x.list(&tree.c);
    let exp = scopes(&x.ev);
    let mut names: BTreeSet<&str> = ["this", "super", "arguments", "$", "a", ""].into_iter().collect();
    for e in &x.ev {
        if let E::Use(n) | E::Decl(n) = *e {
            if names.len() < 40 {
                names.insert(n);
            }
        }
    }
    let mut n = (0, 0);
    let root = scope::analyze(&m);
    check_scope(&exp, root, None, &names, "", &p.src, &mut n)?;
    // a second analysis neither disturbs the first nor is disturbed by it
    if ctx.idx % 4 == 0 {
        let again = scope::analyze(&m);
        check_scope(&exp, again, None, &names, "", &p.src, &mut n)?;
        check_scope(&exp, root, None, &names, "", &p.src, &mut n)?;
    }
    same("tree changed by the analysis", &tree, &conv::module(&m), &p.src)?;
    ctx.stats.count("scopes", n.0);
    ctx.stats.count("lookups", n.1);
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    for e in &x.ev {
        match e {
            E::Use(_) => *per.entry("uses").or_insert(0) += 1,
            E::Decl(_) => *per.entry("declarations").or_insert(0) += 1,
            _ => {}
        }
    }
    for (k, v) in per {
        ctx.stats.count(k, v);
    }
    ctx.stats.seen("scope_trees", tree_of(&exp));
    note(ctx, &p);
    Ok(())
}

fn tree_of(s: &S) -> u64 {
    let mut h = match s.kind {
        Some(ScopeKind::Function) => 1,
        _ => 2,
    } + 4 * s.used.len() as u64
        + 64 * s.declared.len() as u64
        + s.this as u64 * 1024;
    for c in &s.children {
        h = crate::rng::mix(h.rotate_left(9) ^ tree_of(c));
    }
    crate::rng::mix(h)
}

// ------------------------------------------------------------------ the transform

/// Arrow functions become function expressions
pub fn es2015(t: &T) -> T {
    let mut c: Vec<T> = t.c.iter().map(es2015).collect();
    if !t.is(K::Arrow) {
        return T { k: t.k, s: t.s.clone(), c, start: t.start, end: t.end };
    }
    let body = c.pop().unwrap();
    let params = c.pop().unwrap();
    let body = if body.is(K::Block) {
        body
    } else {
        let (s, e) = (t.c[1].start, t.c[1].end);
        let ret = T { k: K::Return, s: String::new(), c: vec![body], start: s, end: e };
        T { k: K::Block, s: String::new(), c: vec![ret], start: s, end: e }
    };
    T { k: K::FnExpr, s: String::new(), c: vec![nil(), params, body], start: t.start, end: t.end }
}

pub(super) fn positions(a: &T, b: &T) -> Option<String> {
    if !matches!(a.k, K::Nil | K::Module | K::Params) && (a.start, a.end) != (b.start, b.end) {
        return Some(format!("{:?} at {}..{} instead of {}..{}", a.k, b.start, b.end, a.start, a.end));
    }
    a.c.iter().zip(&b.c).find_map(|(x, y)| positions(x, y))
}

pub fn c13(ctx: &mut Ctx) -> Res {
    let p = make_with(ctx, K::Arrow);
    let (m, tree) = match parsed(ctx, &p) {
        Some(x) => x,
        None => return Ok(()),
    };
    let exp = es2015(&tree);
    let mut arrows = 0;
    tree.walk(&mut |t| arrows += t.is(K::Arrow) as u64);
    ctx.stats.count("arrows", arrows);
    transform(&m);
    let got = conv::module(&m);
    same("transformed", &exp, &got, &p.src)?;
    if let Some(w) = positions(&exp, &got) {
        return Err(bad("transformed: location", w, &*p.src));
    }
    for minify in [true, false] {
        let mode = if minify { "minified" } else { "pretty" };
        let out = codegen(&m, minify);
        match ratel::parse(&out) {
            Err(e) => return Err(bad(format!("{} output of the transform does not parse", mode), format!("{}\noutput: {}", errs(&e), out), &*p.src)),
            Ok(m2) => {
                if let Some(d) = diff(&exp, &conv::module(&m2)) {
                    return Err(bad(format!("{} output of the transform: {}", mode, diff_kind(&d)), format!("{}\noutput: {}", d, out), &*p.src));
                }
            }
        }
    }
    if ctx.idx % 4 == 0 {
        // the transformed tree is a tree like any other
        let mut r = Recorder::default();
        m.visit_with(&mut r);
        let mut x = Expect::default();
        x.list(&exp.c);
        compare("traversal of the transformed tree", &x.ev, &r.ev, &p.src)?;
        let mut n = (0, 0);
        check_scope(&scopes(&x.ev), scope::analyze(&m), None, &BTreeSet::new(), "", &p.src, &mut n)?;
        // nothing is left to do
        transform(&m);
        same("transformed twice", &exp, &conv::module(&m), &p.src)?;
    }
    if arrows > 0 {
        note(ctx, &p);
        ctx.stats.seen("programs_with_arrows", p.tree.hash());
    } else {
        ctx.stats.count("without_arrows", 1);
    }
    Ok(())
}

/// An arrow function takes `this`, `arguments` and `new.target` from around it, a function expression has its own.
/// Only these three programs are tried: what fails is what known-findings.txt lists.
pub fn c13m(ctx: &mut Ctx) -> Res {
    let src = match ctx.idx {
        0 => "function f() { return () => this; }",
        1 => "function f() { return () => arguments; }",
        2 => "function f() { return () => new.target; }",
        _ => return Ok(()),
    };
    current(src);
    let m = match ratel::parse(src) {
        Ok(m) => m,
        Err(e) => return Err(bad("rejected", errs(&e), src)),
    };
    transform(&m);
    let t = conv::module(&m);
    // is the word now within a function expression of its own, unaided by a variable around it?
    let mut own = false;
    t.walk(&mut |t| {
        if t.is(K::FnExpr) {
            t.walk(&mut |u| own |= u.is(K::This) || u.is(K::Meta) || (u.is(K::Ident) && u.s == "arguments"));
        }
    });
    ctx.stats.nontrivial(ctx.idx + 1);
    if own {
        return Err(bad(format!("meaning of {}", ["this", "arguments", "new.target"][ctx.idx as usize]), codegen(&m, true), src));
    }
    Ok(())
}
