// Is a piece of JavaScript within the subset of ECMAScript ratel has? Judged on acorn's tree and tokens.
'use strict';

const WORDS = new Set(['let', 'static', 'yield', 'await', 'async', 'enum', 'implements', 'package', 'protected', 'interface', 'private', 'public', 'super', 'with', 'export']);

class No extends Error {}
const no = why => { throw new No(why); };

// Throws No with the reason. `src` is the whole text acorn parsed; node lies within it.
function check(node, src, comments) {
  const text = src.slice(node.start, node.end);
  // white space ratel does not have (in comments and strings too: not worth telling apart)
  if (/[\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000\ufeff\0]/.test(text)) no('unicode white space');
  if (/<!--|-->/.test(text)) no('html comment');
  let depth = 0;
  (function walk(n, parent, field) {
    if (++depth > 220) no('depth');
    switch (n.type) {
      case 'Identifier':
        if (src.slice(n.start, n.start + n.name.length) !== n.name) no('escape in identifier');
        if (!(parent && ((parent.type === 'MemberExpression' && field === 'property' && !parent.computed) || (parent.type === 'Property' && field === 'key') || (parent.type === 'MethodDefinition' && field === 'key'))) && WORDS.has(n.name)) no('word ' + n.name);
        if (n.name === 'undefined' && parent && (/^(VariableDeclarator|ArrayPattern|RestElement|Function|Catch|Class|Import)/.test(parent.type) && field !== 'init' && field !== 'superClass' || parent.type === 'AssignmentPattern' && field === 'left' || parent.type === 'Property' && field === 'value')) no('undefined as a name');
        if (/[^\x00-\x7f]/.test(n.name)) no('unicode identifier');
        break;
      case 'Literal':
        if (n.bigint) no('bigint');
        if (n.regex && /[^gimuy]/.test(n.regex.flags)) no('flags');
        if (typeof n.value === 'number' && (/_/.test(n.raw) || /^0\d/.test(n.raw))) no('number ' + n.raw);
        break;
      case 'Property':
        if (parent.type === 'ObjectPattern') {
          if (n.shorthand && n.value.type !== 'Identifier') no('shorthand default');
        } else {
          if (n.kind !== 'init') no('accessor');
          if (n.method && (n.value.generator || n.value.async)) no('generator method');
        }
        break;
      case 'MethodDefinition':
        if (n.value.generator || n.value.async) no('generator method');
        if (n.static && !n.computed && n.key.name === 'static') no('static');
      // falls through
      case 'PropertyDefinition':
        if (!n.computed && n.key.type !== 'Identifier') no('class key');
        if (!n.computed && n.key.name === 'static') no('static');
        if (n.type === 'PropertyDefinition' && !n.value) no('field without value');
        if ((n.kind === 'get' || n.kind === 'set') && n.computed) no('accessor key');
        break;
      case 'ClassBody': {
        // `;` between members
        let at = n.start + 1;
        for (const m of [...n.body, { start: n.end - 1, type: '' }]) {
          const gap = strip(src, at, m.start, comments);
          if (/;/.test(gap)) no('; in class');
          at = m.end;
          if (m.type === 'PropertyDefinition' && src[m.end - 1] !== ';') no('field without ;');
        }
        break;
      }
      case 'ArrowFunctionExpression':
        if (n.async) no('async');
        if (n.params.some(p => p.type !== 'Identifier' && !(p.type === 'AssignmentPattern' && p.left.type === 'Identifier'))) no('arrow pattern');
        if (n.params.length && /^[\s)]*,/.test(strip(src, n.params[n.params.length - 1].end, n.body.start, comments))) no('trailing comma');
        break;
      case 'FunctionDeclaration': case 'FunctionExpression':
        if (n.async) no('async');
        break;
      case 'ArrayPattern':
        if (n.elements.some(e => e && e.type === 'RestElement')) no('array rest');
        break;
      case 'ObjectPattern':
        if (n.properties.some(p => p.type === 'RestElement')) no('object rest');
        break;
      case 'RestElement':
        if (n.argument.type !== 'Identifier') no('rest pattern');
        break;
      case 'CatchClause':
        if (!n.param) no('bare catch');
        break;
      case 'ImportSpecifier':
        if (n.imported.type !== 'Identifier' || n.imported.name === 'default' && n.start !== n.local.start) no('default as');
        break;
      case 'CallExpression': case 'MemberExpression':
        if (n.optional) no('optional');
        break;
      case 'BinaryExpression': case 'LogicalExpression':
        if (n.operator === '??') no('??');
        if (n.left.type === 'PrivateIdentifier') no('private');
        break;
      case 'AssignmentExpression':
        if (['&&=', '||=', '??='].includes(n.operator)) no(n.operator);
        break;
      case 'MetaProperty':
        if (n.meta.name !== 'new') no('import.meta');
        break;
      case 'LabeledStatement':
        if (WORDS.has(n.label.name)) no('word');
        break;
      case 'ForOfStatement':
        if (n.await) no('for await');
        break;
      case 'Super': case 'YieldExpression': case 'AwaitExpression': case 'ImportExpression': case 'WithStatement': case 'ChainExpression':
      case 'PrivateIdentifier': case 'StaticBlock': case 'ExportNamedDeclaration': case 'ExportDefaultDeclaration': case 'ExportAllDeclaration': case 'ParenthesizedExpression':
        no(n.type);
    }
    for (const k in n) {
      const v = n[k];
      if (Array.isArray(v)) v.forEach(x => x && typeof x.type === 'string' && walk(x, n, k));
      else if (v && typeof v.type === 'string' && k !== 'tokens_') walk(v, n, k);
    }
    depth--;
  })(node, null, null);
}

function strip(src, a, b, comments) {
  let s = src.slice(a, b);
  for (const c of comments) if (c.start >= a && c.end <= b) s = s.replace(src.slice(c.start, c.end), ' ');
  return s;
}

module.exports = { check, No };
