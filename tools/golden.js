// Reads base64 lines; prints a canonical description of what node's V8 reads.
const v8 = require('v8');
const rl = require('readline').createInterface({input: process.stdin, terminal: false});
function dbl(x) { if (x !== x) return 'nan'; const b = Buffer.alloc(8); b.writeDoubleLE(x); return b.toString('hex'); }
function str(s) { return Buffer.from(s, 'utf16le').toString('hex'); }
const FL = {g: 1, i: 2, m: 4, y: 8, u: 16, s: 32, l: 64, d: 128, v: 256};
const VT = new Map([[Int8Array,'b'],[Uint8Array,'B'],[Uint8ClampedArray,'C'],[Int16Array,'w'],[Uint16Array,'W'],
 [Int32Array,'d'],[Uint32Array,'D'],[Float32Array,'f'],[Float64Array,'F'],[BigInt64Array,'q'],[BigUint64Array,'Q'],[DataView,'?'],[Buffer,'B']]);
function describe(root) {
  const ids = new Map(); const out = []; const todo = [root];
  const queue = [];
  function ref(v) {
    if (v === undefined) return ['undefined'];
    if (v === null) return ['null'];
    if (typeof v === 'boolean') return ['boolean', v];
    if (typeof v === 'number') return ['number', dbl(v)];
    if (typeof v === 'bigint') return ['bigint', v.toString()];
    if (typeof v === 'string') return ['string', str(v)];
    if (!ids.has(v)) { ids.set(v, ids.size); queue.push(v); }
    return ['ref', ids.get(v)];
  }
  function props(v) { return Object.keys(v).map(k => [str(k), ref(v[k])]); }
  function one(v) {
    if (v instanceof Boolean || v instanceof Number || v instanceof String || v instanceof BigInt ||
        (typeof v === 'object' && Object.prototype.toString.call(v) === '[object BigInt]')) return ['wrapper', ref(v.valueOf())];
    if (Array.isArray(v)) return ['array', v.length, props(v)];
    if (v instanceof Date) return ['date', dbl(v.getTime())];
    if (v instanceof RegExp) return ['regexp', str(v.source), [...v.flags].reduce((a, c) => a + FL[c], 0)];
    if (v instanceof Map) return ['map', [...v].map(([a, b]) => [ref(a), ref(b)])];
    if (v instanceof Set) return ['set', [...v].map(ref)];
    if (v instanceof Error) {
      const own = n => { const d = Object.getOwnPropertyDescriptor(v, n); return d ? ref(d.value !== undefined ? d.value : v[n]) : null; };
      let st = Object.getOwnPropertyDescriptor(v, 'stack');
      return ['error', v.name, own('message'), own('cause')];
    }
    if (v instanceof ArrayBuffer) return ['arraybuffer', Buffer.from(v).toString('hex'), v.resizable ? v.maxByteLength : null];
    if (ArrayBuffer.isView(v)) {
      const tracking = v.buffer.resizable && isTracking(v);
      return ['view', VT.get(v.constructor), v.byteOffset, tracking ? null : v.byteLength, ref(v.buffer)];
    }
    return ['object', props(v)];
  }
  function isTracking(v) {
    const b = v.buffer; const l = b.byteLength, before = v.byteLength;
    // grow or shrink by one element and see
    const sz = v.BYTES_PER_ELEMENT || 1;
    try {
      if (l + sz <= b.maxByteLength) { b.resize(l + sz); const t = v.byteLength !== before; b.resize(l); return t; }
      if (l >= sz && before >= sz) { b.resize(l - sz); const t = v.byteLength !== 0 || before === sz && v.byteOffset <= l - sz && v.byteLength===0 && false; const tt = v.byteLength === before - sz && before - sz > 0; const save = tt; b.resize(l); return save || (before===sz ? 'unknown' : false); }
    } catch (e) { return 'unknown'; }
    return 'unknown';
  }
  const r = ref(root);
  while (queue.length) out.push(one(queue.shift()));
  return [r, out];
}
rl.on('line', l => {
  const [mode, b64] = l.split(' ');
  const b = Buffer.from(b64, 'base64');
  let v;
  try { v = v8.deserialize(b); } catch (e) { console.log(JSON.stringify({err: e.message})); return; }
  let d, re = null;
  try { re = v8.serialize(v).toString('base64'); } catch (e) { re = null; }
  try { d = describe(v); } catch (e) { d = ['describe failed', e.message]; }
  console.log(JSON.stringify({d, re}));
});
