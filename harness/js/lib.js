// Shared by every differential case file. Runs in plain node (reference) and in a worker.
function makeRng(seed) {
  let a = seed >>> 0;
  const r = {
    u32() { a = (a + 0x6D2B79F5) >>> 0; let t = a; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return (t ^ (t >>> 14)) >>> 0; },
    below(n) { return r.u32() % n; },
    range(x, y) { return x + r.below(y - x + 1); },
    chance(p, q) { return r.below(q) < p; },
    pick(l) { return l[r.below(l.length)]; },
    bytes(n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = r.u32(); return b; },
    len() { return r.pick([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 55, 56, 63, 64, 65, 127, 128, 129, 200, 255, 256, 1000]); },
    // text with every kind of character, lone surrogates included
    char() {
      switch (r.below(14)) {
        case 0: return String.fromCharCode(r.below(0x20));
        case 1: case 2: case 3: return String.fromCharCode(0x20 + r.below(0x5f));
        case 4: return String.fromCharCode(0x80 + r.below(0x80));
        case 5: return String.fromCharCode(0x100 + r.below(0x700));
        case 6: return String.fromCharCode(0x800 + r.below(0xd000));
        case 7: return String.fromCodePoint(0x10000 + r.below(0x100000));
        case 8: return String.fromCharCode(0xd800 + r.below(0x400));
        case 9: return String.fromCharCode(0xdc00 + r.below(0x400));
        case 10: return r.pick(['\u007f', '\u0080', '\u07ff', '\u0800', '\ud7ff', '\ue000', '\ufffd', '\uffff', '\ufeff', '\u{10000}', '\u{10ffff}', '\0']);
        case 11: return r.pick(['&', '=', '+', '%', '?', '#', ';', ' ', '/', ':', '@', ',', '"', "'", '<', '>', '\\', '%41', '%zz', '%e4', '%F0%9F%98%80', '%C3%A9', '%25', '%2']);
        default: return String.fromCharCode(0x61 + r.below(26));
      }
    },
    text(n) { let s = ''; const k = n === undefined ? r.below(r.pick([3, 8, 30])) : n; for (let i = 0; i < k; i++) s += r.char(); return s; },
    word() { let s = ''; const k = 1 + r.below(6); for (let i = 0; i < k; i++) s += String.fromCharCode(0x61 + r.below(26)); return s; },
    wellText(n) { return r.text(n).toWellFormed(); },
  };
  return r;
}
function show(v, seen = new Map()) {
  if (v === undefined) return 'undefined';
  if (v === null) return 'null';
  switch (typeof v) {
    case 'string': return v.length > 4000 ? 'str(' + v.length + ',' + fnv(v) + ')' : JSON.stringify(v);
    case 'number': return Object.is(v, -0) ? '-0' : String(v);
    case 'boolean': return String(v);
    case 'bigint': return v + 'n';
    case 'symbol': return 'symbol';
    case 'function': return 'function';
  }
  if (seen.has(v)) return '@' + seen.get(v);
  const id = seen.size; seen.set(v, id);
  const tag = Object.prototype.toString.call(v).slice(8, -1);
  if (v instanceof Error) return 'error(' + v.name + ')';
  if (v instanceof Date) return 'Date(' + v.getTime() + ')';
  if (v instanceof RegExp) return 'RegExp(' + v + ',' + v.lastIndex + ')';
  if (v instanceof ArrayBuffer) return 'ab(' + hex(new Uint8Array(v)) + ')';
  if (ArrayBuffer.isView(v)) return tag + '[' + v.byteOffset + ',' + v.byteLength + ']' + (v.byteLength > 600 ? fnv(hexAll(new Uint8Array(v.buffer, v.byteOffset, v.byteLength))) : show(v.buffer, seen));
  if (v instanceof Map) return 'Map{' + [...v].map(([k, x]) => show(k, seen) + '=>' + show(x, seen)).join(',') + '}';
  if (v instanceof Set) return 'Set{' + [...v].map(x => show(x, seen)).join(',') + '}';
  if (Array.isArray(v)) return '[' + Array.from(v, x => show(x, seen)).join(',') + ']';
  if (v instanceof Boolean || v instanceof Number || v instanceof String) return tag + '(' + show(v.valueOf(), seen) + ')';
  return '{' + Object.keys(v).map(k => JSON.stringify(k) + ':' + show(v[k], seen)).join(',') + '}';
}
function hexAll(b) { let s = ''; for (let i = 0; i < b.length; i++) s += (b[i] < 16 ? '0' : '') + b[i].toString(16); return s; }
function hex(b) { return b.length > 600 ? b.length + ':' + fnv(hexAll(b)) : hexAll(b); }
function fnv(s) { let h = 0x811c9dc5; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193); } return (h >>> 0).toString(16); }
// [group, description, outcome] of one operation; the outcome of a failure is the class of its error
async function runCases(seed, n, body) {
  const lines = [];
  const T = {
    rng: makeRng(seed), n, ref: typeof process !== 'undefined',
    async t(group, what, f) {
      let out;
      try { out = show(await f()); } catch (e) { out = 'throws'; if (e && T.names) out += ' ' + e.name; }
      lines.push(JSON.stringify([group, show(what), out]));
    },
    // the outcome is known without asking the reference
    async want(group, what, expected, f) { if (T.ref) lines.push(JSON.stringify([group, show(what), show(expected)])); else await T.t(group, what, f); },
    // the error's name counts, too
    async tn(group, what, f) { T.names = true; try { await T.t(group, what, f); } finally { T.names = false; } },
  };
  await body(T);
  return lines.join('\n');
}
