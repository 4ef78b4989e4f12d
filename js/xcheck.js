'use strict';
const { parse, model } = require('./model.js');
const rl = require('readline').createInterface({ input: process.stdin });
// A slash after the `}` of a class expression or of a block confuses acorn's
// tokenizer: what acorn rejects and V8 compiles is left out, and counted.
let n = 0, bad = 0, left = 0; const msgs = {};
rl.on('line', l => {
  const o = JSON.parse(l); n++;
  let r;
  try { r = JSON.stringify(model(parse(o.src, o.module), o.src)); } catch (e) {
    r = 'ERR ' + e.message;
    if (!o.module) try { new (require('vm').Script)(o.src); left++; return; } catch (e) { r += ' V8 ' + e.message; }
  }
  if (r !== JSON.stringify(o.tree)) { bad++; const k = r.startsWith('ERR') ? r.replace(/\(.*/, '') : 'diff'; (msgs[k] = msgs[k] || []).push([o.src, r, JSON.stringify(o.tree)]); }
});
rl.on('close', () => {
  console.log(n, 'checked', bad, 'bad', left, 'acorn alone rejects');
  for (const k in msgs) { msgs[k].sort((a, b) => a[0].length - b[0].length); console.log(msgs[k].length, k); for (const m of msgs[k].slice(0, 2)) console.log('   ', JSON.stringify(m[0]), '\n      ', k === 'diff' ? m[1] + '\n       ' + m[2] : ''); }
});
