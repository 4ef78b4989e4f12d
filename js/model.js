// ESTree (as produced by acorn) -> the model tree of the monitors, as nested arrays [kind, s, ...children].
// Independent of ratel: this is the reference the generator, the printer and ratel's output are held to.
'use strict';
const path = require('path');
const NM = process.env.RATELMON_NODE_MODULES || '/opt/veriftools/node/node_modules';
const acorn = require(path.join(NM, 'acorn'));

function parse(src, module) {
  const tokens = [];
  const ast = acorn.parse(src, {
    ecmaVersion: 2022, sourceType: module ? 'module' : 'script', preserveParens: false, allowHashBang: false,
    // static imports only at top level; ratel has one goal symbol
    allowReturnOutsideFunction: false, onToken: tokens,
  });
  ast.tokens_ = tokens;
  return ast;
}

const NIL = ['Nil', ''];
function model(ast, src) {
  const text = n => src.slice(n.start, n.end);
  const list = (l, f) => l.map(f);
  const name = n => ['Name', n.name];
  const block = b => ['Block', '', ...list(b.body, stmt)];
  const opt = (n, f) => n ? f(n) : NIL;

  function stmt(n) {
    switch (n.type) {
      case 'EmptyStatement': return ['Empty', ''];
      case 'DebuggerStatement': return ['Debugger', ''];
      case 'ExpressionStatement': return ['ExprStmt', '', expr(n.expression)];
      case 'VariableDeclaration': return decl(n);
      case 'ReturnStatement': return ['Return', '', opt(n.argument, expr)];
      case 'BreakStatement': return ['Break', '', opt(n.label, name)];
      case 'ContinueStatement': return ['Continue', '', opt(n.label, name)];
      case 'ThrowStatement': return ['Throw', '', expr(n.argument)];
      case 'IfStatement': return ['If', '', expr(n.test), stmt(n.consequent), opt(n.alternate, stmt)];
      case 'WhileStatement': return ['While', '', expr(n.test), stmt(n.body)];
      case 'DoWhileStatement': return ['Do', '', stmt(n.body), expr(n.test)];
      case 'ForStatement':
        return ['For', '', opt(n.init, i => i.type === 'VariableDeclaration' ? decl(i) : expr(i)), opt(n.test, expr), opt(n.update, expr), stmt(n.body)];
      case 'ForInStatement':
      case 'ForOfStatement':
        return [n.type === 'ForInStatement' ? 'ForIn' : 'ForOf', '', n.left.type === 'VariableDeclaration' ? decl(n.left) : pexpr(n.left), expr(n.right), stmt(n.body)];
      case 'TryStatement':
        return ['Try', '', block(n.block), opt(n.handler, h => ['Catch', '', h.param ? pat(h.param) : NIL, block(h.body)]), opt(n.finalizer, block)];
      case 'BlockStatement': return block(n);
      case 'LabeledStatement': return ['Labeled', n.label.name, stmt(n.body)];
      case 'SwitchStatement':
        return ['Switch', '', expr(n.discriminant), ...list(n.cases, c => ['Case', '', opt(c.test, expr), ...list(c.consequent, stmt)])];
      case 'FunctionDeclaration': return func(n, 'FnDecl');
      case 'ClassDeclaration': return klass(n, 'ClassDecl');
      case 'ImportDeclaration':
        return ['Import', text(n.source).slice(1, -1), ...list(n.specifiers, s => {
          if (s.type === 'ImportSpecifier') return ['ImportSpec', '', name(s.imported), name(s.local)];
          if (s.type === 'ImportDefaultSpecifier') return ['ImportDefault', '', name(s.local)];
          return ['ImportNs', '', name(s.local)];
        })];
    }
    throw new Error('statement ' + n.type);
  }
  function decl(n) {
    return ['Decl', n.kind, ...list(n.declarations, d => ['Declarator', '', pat(d.id), opt(d.init, expr)])];
  }
  function func(n, k) {
    if (n.async) throw new Error('async');
    return [k, n.generator ? '*' : '', opt(n.id, name), ['Params', '', ...list(n.params, pat)], block(n.body)];
  }
  function key(n) {
    if (n.computed) return ['KeyComp', '', expr(n.key)];
    const k = n.key;
    if (k.type === 'Identifier') return ['KeyLit', k.name];
    if (k.type === 'Literal') return [/^0b/i.test(text(k)) ? 'KeyBin' : 'KeyLit', text(k)];
    throw new Error('key ' + k.type);
  }
  function klass(n, k) {
    const body = list(n.body.body, m => {
      if (m.type === 'MethodDefinition')
        return ['CMethod', (m.static ? 'static ' : '') + m.kind, key(m), func(m.value, 'Method')];
      if (m.type === 'PropertyDefinition')
        return ['CField', m.static ? 'static' : '', key(m), opt(m.value, expr)];
      throw new Error('class member ' + m.type);
    });
    return [k, '', opt(n.id, name), opt(n.superClass, expr), ['ClassBody', '', ...body]];
  }
  // binding pattern
  function pat(n) {
    switch (n.type) {
      case 'Identifier': return ['PatIdent', n.name];
      case 'ObjectPattern': return ['PatObj', '', ...list(n.properties, pprop)];
      case 'ArrayPattern': return ['PatArr', '', ...list(n.elements, e => e ? pat(e) : ['PatVoid', ''])];
      case 'RestElement': return ['PatRest', '', name(n.argument)];
      case 'AssignmentPattern': return ['PatAssign', '', pat(n.left), expr(n.right)];
    }
    throw new Error('pattern ' + n.type);
  }
  function pprop(p) {
    if (p.type === 'RestElement') return ['PSpread', '', pexpr(p.argument)];
    if (p.shorthand) {
      if (p.value.type !== 'Identifier') throw new Error('shorthand default');
      return ['PShort', p.value.name];
    }
    return ['PKV', '', key(p), pexpr(p.value)];
  }
  // pattern below an object pattern / on the left of `=`: expression notation
  function pexpr(n) {
    switch (n.type) {
      case 'ObjectPattern': return ['Object', '', ...list(n.properties, pprop)];
      case 'ArrayPattern':
        return ['Array', '', ...list(n.elements, e => e ? (e.type === 'RestElement' ? ['Spread', '', pexpr(e.argument)] : pexpr(e)) : ['Void', ''])];
      case 'AssignmentPattern': return ['Binary', '=', pexpr(n.left), expr(n.right)];
    }
    return expr(n);
  }
  function arg(n) {
    if (!n) return ['Void', ''];
    if (n.type === 'SpreadElement') return ['Spread', '', expr(n.argument)];
    return expr(n);
  }
  function template(n) {
    const c = [];
    n.quasis.forEach((q, i) => {
      c.push(['Quasi', src.slice(q.start, q.end)]);
      if (i < n.expressions.length) c.push(expr(n.expressions[i]));
    });
    return ['Template', '', ...c];
  }
  function expr(n) {
    switch (n.type) {
      case 'ThisExpression': return ['This', ''];
      case 'Identifier': return n.name === 'undefined' ? ['LitUndefined', ''] : ['Ident', n.name];
      case 'Literal': {
        if (n.value === null && !n.regex && n.raw === 'null') return ['LitNull', ''];
        if (n.value === true) return ['LitTrue', ''];
        if (n.value === false) return ['LitFalse', ''];
        if (n.regex) return ['LitRe', n.raw];
        if (typeof n.value === 'string') return ['LitStr', n.raw];
        if (typeof n.value === 'number') return [/^0b/i.test(n.raw) ? 'LitBin' : 'LitNum', n.raw];
        throw new Error('literal ' + n.raw);
      }
      case 'SequenceExpression': return ['Seq', '', ...list(n.expressions, expr)];
      case 'ArrayExpression': return ['Array', '', ...list(n.elements, arg)];
      case 'ObjectExpression':
        return ['Object', '', ...list(n.properties, p => {
          if (p.type === 'SpreadElement') return ['PSpread', '', expr(p.argument)];
          if (p.kind !== 'init') throw new Error('accessor');
          if (p.method) return ['PMethod', '', key(p), func(p.value, 'Method')];
          if (p.shorthand) return ['PShort', p.key.name];
          return ['PKV', '', key(p), expr(p.value)];
        })];
      case 'MemberExpression':
        if (n.optional) throw new Error('optional');
        return n.computed ? ['CMember', '', expr(n.object), expr(n.property)] : ['Member', '', expr(n.object), name(n.property)];
      case 'MetaProperty': return ['Meta', '', name(n.meta), name(n.property)];
      case 'CallExpression': return ['Call', '', expr(n.callee), ...list(n.arguments, arg)];
      case 'NewExpression': {
        // `new a` and `new a()` are one construct in ESTree; told apart by the text for exact comparison
        const hasArgs = text(n).endsWith(')') && argsPresent(n, ast.tokens_);
        const callee = expr(n.callee);
        return ['Prefix', 'new', hasArgs || n.callee.type === 'CallExpression' ? ['Call', '', callee, ...list(n.arguments, arg)] : callee];
      }
      case 'BinaryExpression':
      case 'LogicalExpression': return ['Binary', n.operator, expr(n.left), expr(n.right)];
      case 'AssignmentExpression': return ['Binary', n.operator, pexpr(n.left), expr(n.right)];
      case 'UnaryExpression': return ['Prefix', n.operator, expr(n.argument)];
      case 'UpdateExpression': return [n.prefix ? 'Prefix' : 'Postfix', n.operator, expr(n.argument)];
      case 'ConditionalExpression': return ['Cond', '', expr(n.test), expr(n.consequent), expr(n.alternate)];
      case 'TemplateLiteral': return template(n);
      case 'TaggedTemplateExpression': return ['Tagged', '', expr(n.tag), template(n.quasi)];
      case 'ArrowFunctionExpression': {
        if (n.async) throw new Error('async');
        const b = n.body.type === 'BlockStatement';
        return ['Arrow', b ? 'block' : 'expr', ['Params', '', ...list(n.params, pat)], b ? block(n.body) : expr(n.body)];
      }
      case 'FunctionExpression': return func(n, 'FnExpr');
      case 'ClassExpression': return klass(n, 'ClassExpr');
    }
    throw new Error('expression ' + n.type);
  }
  return flat(['Module', '', ...list(ast.body, stmt)]);
}

// kind, text, number of children, children, without nesting
function flat(t) {
  const o = [];
  (function go(n) { o.push(n[0], n[1], n.length - 2); for (let i = 2; i < n.length; i++) go(n[i]); })(t);
  return o;
}

// Does the NewExpression have an (empty) argument list? Its last two tokens are then `(` `)`.
function argsPresent(n, tokens) {
  if (n.arguments.length) return true;
  if (n.callee.end === n.end) return false;
  let lo = 0, hi = tokens.length;
  while (lo < hi) { const m = (lo + hi) >> 1; if (tokens[m].end < n.end) lo = m + 1; else hi = m; }
  return lo > 0 && tokens[lo].type.label === ')' && tokens[lo - 1].type.label === '(';
}

module.exports = { parse, model, acorn };
