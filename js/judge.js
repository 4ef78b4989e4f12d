// stdin: {"src", "min", "pretty", "tree", "module"} per line. Every printed text must be JavaScript with the same
// tree, for acorn, and V8 must take it too. Writes a summary to the file named.
'use strict';
const fs = require('fs'), vm = require('vm');
const { parse, model } = require('./model.js');
const rl = require('readline').createInterface({ input: process.stdin });
const sum = { evaluations: 0, distinct_nontrivial: 0, inconclusive: 0, counters: { texts_read_by_acorn: 0, texts_compiled_by_v8: 0, printed_bytes: 0 }, distinct: {}, samples: [], wall_s: 0, bad: [] };
const trees = new Set();
function v8(src, module) {
  if (module) return null;
  try { new vm.Script(src); return true; } catch (e) { return e.message; }
}
function hash(s) { let h = 2166136261, g = 5381; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); h = Math.imul(h ^ c, 16777619); g = (Math.imul(g, 33) + c) | 0; } return h + ':' + g; }
function bad(kind, msg, o) {
  if (sum.bad.length < 200) sum.bad.push({ kind, idx: sum.evaluations, count: 1, msg, input: o.src });
}
rl.on('line', l => {
  const o = JSON.parse(l);
  if (o.skip) { sum.inconclusive++; return; }
  sum.evaluations++;
  const tree = JSON.stringify(o.tree);
  let mine;
  // the original must read as the model says, or this parser cannot judge
  try { mine = JSON.stringify(model(parse(o.src, o.module), o.src)); } catch (e) { mine = String(e); }
  if (mine !== tree) { sum.inconclusive++; return; }
  const ok8 = v8(o.src, o.module);
  for (const mode of ['min', 'pretty']) {
    const p = o[mode];
    sum.counters.printed_bytes += p.length;
    const r8 = ok8 === true ? v8(p, o.module) : null;
    if (r8 === true) sum.counters.texts_compiled_by_v8++;
    let got;
    try { got = JSON.stringify(model(parse(p, o.module), p)); } catch (e) {
      if (r8 === true) { sum.inconclusive++; continue; } // acorn loses track of `/` after some `}`
      if (r8 === null && /\}\s*\//.test(p)) { sum.inconclusive++; continue; }
      bad(mode + ': not JavaScript', 'acorn does not take the printed text, nor does V8: ' + e.message + ': ' + p.slice(0, 600), o); break;
    }
    sum.counters.texts_read_by_acorn++;
    // V8 can be wrong too: class i{k(){[[function(i=[((function(s=({})({0(){}},[]=(t))){}))]){}]]}}
    if (r8 !== null && r8 !== true) sum.counters.taken_by_acorn_not_by_v8 = (sum.counters.taken_by_acorn_not_by_v8 || 0) + 1;
    if (got !== tree) {
      let i = 0; while (got[i] === tree[i]) i++;
      bad(mode + ': another program', 'the printed text is another program: ' + got.slice(Math.max(0, i - 80), i + 120) + ' instead of ' + tree.slice(Math.max(0, i - 80), i + 120) + '; printed: ' + p.slice(0, 600), o);
      break;
    }
  }
  if (tree.length > 60 && trees.size < 300000) trees.add(hash(tree));
  if (sum.samples.length < 2 && o.min.length < 300 && sum.evaluations % 50 === 7) sum.samples.push(o.min);
});
rl.on('close', () => {
  sum.distinct_nontrivial = trees.size;
  fs.writeFileSync(process.argv[2], JSON.stringify(sum));
});
