async function body(T) {
  const r = T.rng;
  const latin = (n) => { let s = ''; for (let k = 0; k < n; k++) s += String.fromCharCode(r.below(256)); return s; };
  const pairs = (k) => Array.from({ length: k }, () => [r.chance(1, 3) ? r.pick(['a', 'b', 'key', '']) : r.wellText(), r.wellText()]);
  const str = (s) => { // a URLSearchParams in a form which does not depend on how it is escaped
    return [...s].map(([k, v]) => [k, v]);
  };
  for (let i = 0; i < T.n; i++) {
    // ---- base64
    const bin = latin(r.len() % 300);
    await T.t('btoa', bin, () => btoa(bin));
    await T.t('atob', bin, () => atob(btoa(bin)));
    await T.t('btoa-bad', i % 4, () => btoa(bin + r.pick(['\u0100', '\u20ac', '\ud83d\ude00', '\uffff']) + latin(i % 4)));
    const b64 = btoa(bin);
    await T.t('atob-nopad', b64, () => atob(b64.replace(/=+$/, '')));
    await T.t('atob-space', b64, () => atob(b64.split('').map(c => c + (r.chance(1, 6) ? r.pick([' ', '\n', '\t', '\r', '\f']) : '')).join('')));
    await T.t('atob-bad', [b64, i % 6], () => { const p = r.below(b64.length + 1); return atob(b64.slice(0, p) + ['!', '*', '\u00e9', '.', '%', '$'][i % 6] + b64.slice(p)); });
    await T.t('atob-len', i % 5, () => atob(['A', 'AAAAA', 'AA', 'AAA', ''][i % 5]));
    // ---- URLSearchParams
    const ps = pairs(r.below(6));
    await T.t('usp-pairs', ps, () => str(new URLSearchParams(ps)));
    const q = r.chance(1, 2) ? r.wellText(r.below(30)).replace(/%/g, '') : Array.from({ length: r.below(5) }, () => r.pick(['a', 'b', '', 'x%20y', '+', '%2B', '%', '%zz', '%C3%A9', '%ff', 'k=', '=v', 'a=b=c', '&', '?']) + r.pick(['=', '=', '', '==']) + r.pick(['1', '2', '', '%26', '%3D', ' ', '+', '%E4%BD%A0', '%EF%BB%BF', '%80%80', '#']) ).join('&');
    await T.t('usp-parse', q, () => str(new URLSearchParams(r.chance(1, 2) ? '?' + q : q)));
    await T.t('usp-round', ps, () => { const s = new URLSearchParams(new URLSearchParams(ps).toString()); return [str(s), s.size]; });
    await T.t('usp-lone', i, () => { const t = r.text(); const s = new URLSearchParams([[t, t]]); s.append('x', t); s.set('y', t); return str(new URLSearchParams(s.toString())); });
    await T.t('usp-object', ps, () => str(new URLSearchParams(Object.fromEntries(ps.map(([k, v]) => ['k' + k, v])))));
    await T.t('usp-ops', [ps, i], () => {
      const s = new URLSearchParams(r.chance(1, 2) ? ps : new URLSearchParams(ps)), out = [];
      for (let k = 0; k < 8; k++) {
        const n = r.chance(1, 2) && ps.length ? r.pick(ps)[0] : r.pick(['a', 'b', 'key', '', '1', 'null', 1, null]), v = r.chance(1, 2) ? r.wellText() : r.pick([1, null, undefined, true]);
        switch (r.below(10)) {
          case 0: s.append(n, v); break; case 1: s.set(n, v); break; case 2: s.delete(n); break; case 3: out.push(s.get(n)); break;
          case 4: out.push(s.getAll(n)); break; case 5: out.push(s.has(n)); break; case 6: s.sort(); break; case 7: out.push(s.size); break;
          case 8: { const c = new URLSearchParams(s); c.append('only', 'copy'); switch (r.below(4)) { case 0: c.set(n, 'copied'); break; case 1: c.delete(n); break; case 2: c.sort(); } out.push(s.size, c.size, [...c]); break; }
          case 9: { for (const e of s) e[1] = 'edited'; const l = [...s.entries()]; if (l.length) l[0][0] = 'edited'; s.getAll(n).push('more'); break; }
        }
      }
      s.forEach((v, k, o) => out.push(v, k, o === s));
      return [out, [...s.keys()], [...s.values()], [...s.entries()], str(new URLSearchParams(s.toString()))];
    });
    // ---- Headers
    const names = ['X-A', 'x-a', 'Content-Type', 'ACCEPT', 'x-b-c', 'ETag', 'x_y', 'X-0'];
    const hv = () => { let s = ''; for (let k = r.below(12); k >= 0; k--) s += r.chance(1, 8) ? String.fromCharCode(0xa1 + r.below(0x5f)) : String.fromCharCode(0x21 + r.below(0x5e)); return r.chance(1, 3) ? s + ' ' + s : s; };
    const hp = Array.from({ length: r.below(6) }, () => [r.pick(names), hv()]);
    const sorted = (h) => [...h].map(([k, v]) => k + ':' + v).sort();
    await T.t('headers-init', hp, () => { const o = new Map(); for (const [k, v] of hp) o.set(k, v); return [sorted(new Headers(hp)), sorted(new Headers(new Headers(hp))), sorted(new Headers(Object.fromEntries(o)))]; });
    await T.t('headers-ops', [hp, i], () => {
      const h = new Headers(hp), out = [];
      for (let k = 0; k < 8; k++) {
        const n = r.chance(1, 2) ? r.pick(names) : r.pick(names).toUpperCase();
        switch (r.below(7)) { case 0: h.append(n, hv()); break; case 1: h.set(n, hv()); break; case 2: h.delete(n); break; case 3: out.push(h.get(n)); break; case 4: out.push(h.has(n)); break; case 5: h.append(n, r.below(100)); break; case 6: { const c = new Headers(h); c.set('x-only', 'copy'); if (r.chance(1, 2)) c.append(n, 'copied'); else c.delete(n); for (const e of h) e[1] = 'edited'; out.push(h.has('x-only'), c.get('x-only'), c.get(n)); } }
      }
      const each = []; h.forEach((v, k, o) => each.push(k + ':' + v + (o === h)));
      return [out, sorted(h), each.sort(), [...h.keys()].sort(), [...h.values()].sort(), names.map(n => h.get(n))];
    });
    await T.t('headers-cookie', i, () => {
      const h = new Headers(), n = r.below(4), out = [];
      for (let k = 0; k < n; k++) h.append(r.pick(['Set-Cookie', 'set-cookie']), 'c' + k + '=' + r.word() + ', x');
      h.append('a', '1');
      out.push(h.getSetCookie(), [...h].map(e => e.join(':')).sort(), h.has('SET-COOKIE'));
      const c = new Headers(h); c.append('set-cookie', 'more=1'); out.push(c.getSetCookie(), h.getSetCookie().length);
      const l = h.getSetCookie(); l.push('zzz'); out.push(h.getSetCookie());
      if (r.chance(1, 2)) { h.set('set-cookie', 'one=1'); out.push(h.getSetCookie()); h.append('set-cookie', 'two=2'); out.push(h.getSetCookie()); }
      h.delete('Set-Cookie'); out.push(h.getSetCookie(), sorted(h));
      return out;
    });
    // ---- structuredClone
    const pool = [];
    const value = (d) => {
      if (pool.length && r.chance(1, 8)) return r.pick(pool);
      const k = d <= 0 ? r.below(9) : r.below(20);
      switch (k) {
        case 0: return r.pick([null, undefined, true, false]); case 1: return r.below(1000) - 500; case 2: return r.pick([-0, NaN, Infinity, 1e300, 0.1]);
        case 3: case 4: return r.text(4); case 5: return r.pick([1n, -5n, 2n ** 70n]); case 6: return new Date(r.chance(1, 9) ? NaN : r.u32() * 1000); case 7: return r.pick([/a+/g, /\/x/, /é/iu, /(?:)/]); case 8: return r.bytes(r.below(6)).buffer;
        case 9: { const b = r.bytes(32).buffer; pool.push(b); const A = r.pick([Uint8Array, Int16Array, Float32Array, BigInt64Array, Uint8ClampedArray, Float64Array]); const v = new A(b, 8, 2); pool.push(v); return v; }
        case 10: return new DataView(r.bytes(20).buffer, r.below(5), r.below(10));
        case 11: case 12: { const m = new Map(); pool.push(m); for (let j = r.below(4); j > 0; j--) m.set(value(d - 1), value(d - 1)); return m; }
        case 13: { const m = new Set(); pool.push(m); for (let j = r.below(4); j > 0; j--) m.add(value(d - 1)); return m; }
        case 14: case 15: { const a = []; pool.push(a); for (let j = r.below(5); j > 0; j--) a.push(value(d - 1)); return a; }
        default: { const o = {}; pool.push(o); for (let j = r.below(5); j > 0; j--) { const key = r.chance(1, 10) ? r.pick(['__proto__', 'constructor', 'toString', '0', 'length']) : r.word(); Object.defineProperty(o, key, { value: value(d - 1), enumerable: true, writable: true, configurable: true }); } return o; }
      }
    };
    const v = value(4);
    await T.t('clone', v, () => { const c = structuredClone(v); return [c, Object.is(c, v) === (typeof v !== 'object' || v === null), show(c) === show(v)]; });
    await T.t('clone-independent', v, () => {
      const before = show(v), c = structuredClone(v), seen = new Set();
      (function smash(x) { // change everything in the copy
        if (x === null || typeof x !== 'object' || seen.has(x)) return; seen.add(x);
        if (x instanceof Map) { for (const [a, b] of [...x]) { smash(a); smash(b); } x.clear(); }
        else if (x instanceof Set) { for (const a of [...x]) smash(a); x.clear(); x.add('gone'); }
        else if (x instanceof ArrayBuffer) new Uint8Array(x).fill(0x77);
        else if (ArrayBuffer.isView(x)) smash(x.buffer);
        else if (x instanceof Date) x.setTime(1);
        else if (x instanceof RegExp) x.lastIndex = 5;
        else { for (const k of Object.keys(x)) { smash(x[k]); x[k] = 'gone'; } x.extra = 1; }
      })(c);
      return show(v) === before;
    });
    await T.t('clone-cycle', i % 4, () => { const o = { a: [1] }; o.self = o; o.a.push(o.a, o); const m = new Map([[o, 1]]); m.set('m', m); const s = new Set([m]); s.add(s); const c = structuredClone([o, m, s, o]); return [c, c[0] === c[3], c[0].self === c[0], c[0].a[1] === c[0].a, c[1].get('m') === c[1], c[2].has(c[2]), [...c[1].keys()][0] === c[0]]; });
    await T.tn('clone-bad', i % 5, () => structuredClone([() => 1, { a: Symbol() }, [function () {}], new Map([[1, () => 2]]), new Set([Symbol.iterator])][i % 5]));
    await T.t('clone-deep', i % 3, () => { let o = {}; const top = o; for (let k = 0; k < 300; k++) { o.n = i % 3 ? [{}] : {}; o = i % 3 ? o.n[0] : o.n; } o.end = 1; return JSON.stringify(structuredClone(top)); });
    // ---- Blob, File
    const part = () => { const b = r.bytes(r.len() % 70); switch (r.below(7)) { case 0: return r.wellText(); case 1: return b; case 2: return b.buffer; case 3: return new DataView(b.buffer, b.length >> 1); case 4: return b.subarray(b.length >> 2, b.length - (b.length >> 2)); case 5: return new Uint16Array([r.below(65536), 7]); default: return new Blob([b, r.word()], { type: 'x/y' }); } };
    const read = async (b) => [b.size, b.type, new Uint8Array(await b.arrayBuffer()), await b.text()];
    const parts = Array.from({ length: r.below(5) }, part), type = r.pick(['', 'text/plain', 'application/json;charset=utf-8']);
    await T.t('blob', parts.map(p => p instanceof Blob ? 'blob' + p.size : p), async () => { const b = new Blob(parts, { type }); return [await read(b), await read(b), b instanceof Blob]; });
    await T.t('blob-slice', [parts.length, i], async () => { const b = new Blob(parts, { type }), out = []; for (let k = 0; k < 4; k++) { const n = b.size + 3; const a = r.below(2 * n) - n, e = r.below(2 * n) - n; let s = r.chance(1, 3) ? b.slice(a) : b.slice(a, e, 'a/b'); if (r.chance(1, 3)) s = s.slice(1, -1); out.push(await read(s)); } out.push(await read(b.slice()), await read(b)); return out; });
    await T.t('blob-copies', i % 3, async () => { const u = r.bytes(20), b = new Blob([u, u.buffer, new DataView(u.buffer, 3)]); u.fill(9); const x = new Uint8Array(await b.arrayBuffer()); x.fill(1); const rd = b.stream().getReader(); const c = await rd.read(); if (c.value) c.value.fill(2); return read(b); });
    await T.t('blob-stream', parts.length, async () => { const b = new Blob(parts), out = []; for await (const c of (async function* () { const rd = b.stream().getReader(); for (;;) { const x = await rd.read(); if (x.done) return; yield x.value; } })()) out.push(...c); return new Uint8Array(out); });
    await T.t('blob-empty', 0, async () => [await read(new Blob()), await read(new Blob([])), await read(new Blob([''])), await read(new Blob([new Blob()]))]);
    await T.t('file', i, async () => { const lm = r.pick([1, 1700000000000, 0]), f = new File(parts, r.word() + '.é', { type, lastModified: lm }); return [await read(f), f.name, f.lastModified, f instanceof Blob, f instanceof File, await read(f.slice(1, 5))]; });
    // ---- FormData
    await T.t('formdata', [ps, i], async () => {
      const f = new FormData(), out = [], fl = (x) => x instanceof File ? x.text().then(t => [x.name, x.type, x.size, t]) : x;
      for (const [k, v] of ps) f.append(k, v);
      for (let k = 0; k < 9; k++) {
        const n = r.chance(1, 2) && ps.length ? r.pick(ps)[0] : r.pick(['a', 'b', '1', 'null']), v = r.pick([() => r.wellText(), () => 5, () => null, () => undefined, () => new File([r.word()], r.word() + '.txt', { type: 'text/plain' })])();
        switch (r.below(6)) { case 0: f.append(n, v); break; case 1: f.set(n, v); break; case 2: f.delete(n); break; case 3: out.push(await fl(f.get(n))); break; case 4: out.push(await Promise.all(f.getAll(n).map(fl))); break; case 5: out.push(f.has(n)); break; }
      }
      for (const e of f) { e[0] = 'edited'; e[1] = 'edited'; }
      const each = []; f.forEach((v, k, o) => each.push(k, fl(v), o === f));
      return [out, [...f.keys()], await Promise.all([...f.values()].map(fl)), await Promise.all([...f.entries()].map(async ([k, v]) => [k, await fl(v)])), await Promise.all(each)];
    });
    // ---- URL: absolute http(s) URLs in normal form, absolute paths and sibling names
    const seg = () => r.pick(['', 'a', 'b.html', 'x-y_z', '%20', '%C3%A9', 'a:b', '@', '~u', 'index', '1;p=2', "'q'"]);
    const mk = () => r.pick(['http', 'https']) + '://' + r.pick(['', '', '', 'user@', 'user:pw@', 'u-1:p.~2@']) + r.pick(['example.com', 'a.b.c', 'localhost', '127.0.0.1', 'x-y.org', '[::1]', '[2001:db8::7]']) + r.pick(['', '', ':8080', ':1']) + '/' + Array.from({ length: r.below(4) }, seg).join('/') + r.pick(['', '?', '?q=1', '?a=b&c=%26&d', '?x=/?:@', '?e=%C3%A9+1']).replace(/^\?$/, '') + r.pick(['', '#h', '#a?b/c', '#é'.normalize()]).replace('é', '%C3%A9');
    const u = mk();
    const comps = (x) => [x.href, x.protocol, x.host, x.hostname, x.port, x.pathname, x.search, x.hash, x.origin, x.username, x.password, [...x.searchParams], String(x)];
    await T.t('url', u, () => comps(new URL(u)));
    await T.t('url-copy', u, () => comps(new URL(new URL(u))));
    await T.t('url-base', [u, i], () => { const b = mk(), p = '/' + r.pick(['', 'p', 'p/q', 'p?x=1', 'p?x#y', 'p#z']); return [comps(new URL(p, b)), comps(new URL(u, b)), comps(new URL(p, new URL(b)))]; });
    await T.t('url-sibling', [u, i], () => { const b = 'https://h.example/' + r.pick(['', 'd/', 'd/e', 'd/e/f.html']) + r.pick(['', '', '?q=1', '?q=a/b', '?q#x/y', '#h/i']); return comps(new URL(r.pick([r.word(), r.word(), r.word(), '', '//h2.example:1/z', '//h2.example/']) + r.pick(['', '/k', '?x=1', '?x=a/b', '#h', '#h/?i']), b)); });
    await T.t('url-params', [u, i], () => {
      const x = new URL(u.split('#')[0]), k = r.word(), v = r.wellText();
      switch (r.below(4)) { case 0: x.searchParams.append(k, v); break; case 1: x.searchParams.set('q', v); break; case 2: x.searchParams.delete('q'); break; case 3: x.searchParams.sort(); x.searchParams.append(k, v); }
      return [[...new URL(x.href).searchParams], [...new URLSearchParams(x.search)], [...x.searchParams], x.pathname, x.origin, String(x) === x.href, x.href.startsWith(x.origin + x.pathname)];
    });
  }
}
