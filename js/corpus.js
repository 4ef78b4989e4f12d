// Pieces of the JavaScript installed in this sandbox, with their trees according to acorn:
// whole programs where ratel has all their constructs, else statements, functions and classes of them.
// corpus.js SHARD SHARDS LIMIT_FILES
'use strict';
const fs = require('fs'), path = require('path');
const { parse, model, acorn } = require('./model.js');
const { check, No } = require('./supported.js');
const [shard, shards, limit] = process.argv.slice(2).map(Number);
const NM = process.env.RATELMON_NODE_MODULES || '/opt/veriftools/node/node_modules';
const ROOTS = [NM];

function* files(d) {
  let es;
  try { es = fs.readdirSync(d, { withFileTypes: true }); } catch (e) { return; }
  es.sort((a, b) => a.name < b.name ? -1 : 1);
  for (const e of es) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) yield* files(p);
    else if (/\.(js|mjs|cjs)$/.test(e.name)) yield p;
  }
}
// a fixed shuffle, so that a part of the corpus is a mix of it
function hash(s) { let h = 2166136261; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619); return h >>> 0; }

const out = [];
const stats = { files: 0, pieces: 0, reasons: {} };
function emit(o) { fs.writeSync(1, JSON.stringify(o) + '\n'); stats.pieces++; }

const MAX = 60000;
function piece(src, node, wrap, module, comments) {
  let text = wrap ? '(' + src.slice(node.start, node.end) + ')' : src.slice(node.start, node.end);
  if (text.length > MAX) throw new No('large');
  check(node, src, comments);
  let ast;
  try { ast = parse(text, module); } catch (e) { throw new No('context'); }
  emit({ src: text, module, tree: model(ast, text) });
}
const seen = new Set();
function attempt(src, node, wrap, module, comments) {
  try {
    piece(src, node, wrap, module, comments);
    return true;
  } catch (e) {
    if (!(e instanceof No)) throw e;
    stats.reasons[e.message] = (stats.reasons[e.message] || 0) + 1;
    return false;
  }
}
// look inside what could not be taken whole
function descend(src, n, module, comments) {
  for (const k in n) {
    if (k === 'tokens_') continue;
    for (const x of [].concat(n[k])) {
      if (!x || typeof x.type !== 'string') continue;
      if (x.type === 'FunctionDeclaration' || x.type === 'ClassDeclaration') {
        if (x.id && attempt(src, x, false, module, comments)) continue;
      } else if (x.type === 'FunctionExpression' && n.type !== 'Property' && n.type !== 'MethodDefinition' || x.type === 'ClassExpression' || x.type === 'ArrowFunctionExpression') {
        if (attempt(src, x, true, module, comments)) continue;
      } else if (n.type === 'Program') {
        if (attempt(src, x, false, module, comments)) continue;
      }
      descend(src, x, module, comments);
    }
  }
}

const all = [];
for (const r of ROOTS) for (const f of files(r)) all.push([hash(f), f]);
all.sort((a, b) => a[0] - b[0] || (a[1] < b[1] ? -1 : 1));
for (let i = 0; i < Math.min(all.length, limit); i++) {
  if (i % shards !== shard) continue;
  let src;
  try { src = fs.readFileSync(all[i][1], 'utf8'); } catch (e) { continue; }
  if (src.length > 400000 || src.includes('\ufffd')) continue;
  if (src.charCodeAt(0) === 0xfeff) src = src.slice(1);
  if (src.startsWith('#!')) src = '//' + src.slice(2);
  const h = hash(src);
  if (seen.has(h)) continue;
  seen.add(h);
  let ast, module, comments = [];
  for (const m of [false, true]) {
    comments = [];
    try { ast = acorn.parse(src, { ecmaVersion: 2022, sourceType: m ? 'module' : 'script', onComment: comments }); module = m; break; } catch (e) { ast = null; }
  }
  if (!ast) continue;
  stats.files++;
  if (src.length <= MAX && attempt(src, ast, false, module, comments)) continue;
  descend(src, ast, module, comments);
}
process.stderr.write('STATS ' + JSON.stringify(stats) + '\n');
