// Request and Response objects: what goes in as a body is what comes out
async function body(T) {
  const r = T.rng, enc = new TextEncoder();
  const stream = (chunks, how) => { let k = 0; return how === 0 ? new ReadableStream({ start(c) { for (const x of chunks) c.enqueue(x); c.close(); } }) : how === 1 ? new ReadableStream({ pull(c) { if (k < chunks.length) c.enqueue(chunks[k++]); else c.close(); } }) : new ReadableStream({ async start(c) { for (const x of chunks) { await new Promise(f => setTimeout(f, 0)); c.enqueue(x); } c.close(); } }); };
  // a body, its bytes, and whether reading it changes anything
  function make() {
    const s = r.wellText().replace(/^\ufeff+/, ''), b = r.bytes(r.len());
    switch (r.below(13)) {
      case 0: return [s, enc.encode(s), 'text']; case 1: return [b, b, 'u8']; case 2: return [b.slice().buffer, b, 'ab'];
      case 3: { const big = new Uint8Array(b.length + 6); big.set(b, 3); return [big.subarray(3, 3 + b.length), b, 'sub']; }
      case 4: { const big = new Uint8Array(b.length + 6); big.set(b, 3); return [new DataView(big.buffer, 3, b.length), b, 'dv']; }
      case 5: { const w = new Uint16Array(r.below(9)); for (let k = 0; k < w.length; k++) w[k] = r.u32(); return [w, new Uint8Array(w.buffer), 'u16']; }
      case 6: return [new Blob([b, s]), new Uint8Array([...b, ...enc.encode(s)]), 'blob'];
      case 7: case 8: case 9: { const cs = Array.from({ length: r.below(6) }, () => r.bytes(1 + r.below(20))), how = r.below(3); return [stream(cs, how), new Uint8Array(cs.flatMap(c => [...c])), 'stream' + how]; }
      case 10: return [null, new Uint8Array(0), 'null']; case 11: return [undefined, new Uint8Array(0), 'undefined']; default: return ['', new Uint8Array(0), 'empty'];
    }
  }
  const json = JSON.stringify({ a: [1, null, 'é', { b: r.text(5).toWellFormed() }], n: -1.5 });
  for (let i = 0; i < T.n; i++) {
    for (const kind of ['response', 'request']) {
      const mk = (b, init) => kind === 'response' ? new Response(b, init) : new Request('http://h/x', { method: 'POST', duplex: 'half', body: b, ...init });
      for (const how of ['text', 'arrayBuffer']) {
        const [b, bytes, name] = make();
        await T.t('body-' + how, [kind, name, bytes], async () => { const x = mk(b), out = [x.bodyUsed]; out.push(await x[how]()); return out; });
      }
      const [b1, bytes1, n1] = make();
      await T.t('body-once', [kind, n1], async () => { const x = mk(n1 === 'null' || n1 === 'undefined' ? 'x' : b1); await x.text(); const out = [x.bodyUsed]; for (const m of ['text', 'arrayBuffer', 'json', 'clone']) { try { await x[m](); out.push('read ' + m); } catch (e) { out.push(e.name); } } return out; });
      const [b2, bytes2, n2] = make();
      await T.t('body-clone', [kind, n2, bytes2], async () => {
        const x = mk(b2, { headers: { 'x-h': 'v' } }), c = x.clone(), order = r.below(3);
        const both = order === 0 ? [await x.arrayBuffer(), await c.arrayBuffer()] : order === 1 ? [await c.arrayBuffer(), await x.arrayBuffer()].reverse() : await Promise.all([x.arrayBuffer(), c.arrayBuffer()]);
        c.headers.set('x-h', 'changed');
        return [both, x.headers.get('x-h')];
      });
      await T.t('body-clone-twice', [kind, bytes2], async () => { const x = mk(bytes2), a = x.clone(), b = a.clone(), c = x.clone(); return Promise.all([c, x, b, a].map(y => y.arrayBuffer())); });
      await T.t('clone-props', [kind, i], async () => {
        const x = mk('abc', { headers: [['Content-Length', '3'], ['X-A', '1'], ['x-a', '2'], ['Set-Cookie', 'a=1'], ['set-cookie', 'b=2'], ['Content-Type', 'text/x']], ...(kind === 'response' ? { status: r.pick([200, 404, 503]), statusText: 'S ' + r.word() } : { method: r.pick(['PUT', 'PATCH', 'DELETE']) }) }), c = x.clone(), d = c.clone();
        return Promise.all([x, c, d].map(async y => [y.status, y.statusText, y.ok, y.method, y.url, [...y.headers].map(h => h.join()).sort(), y.bodyUsed, await y.text(), y.bodyUsed]));
      });
      if (i % 16 === 0) await T.t('body-large', [kind, i], async () => {
        const n = 65536 * r.pick([1, 2, 5]) + r.below(3) - 1, u = new Uint8Array(n).map((_, k) => (k * 31 + (k >> 8)) & 255), s = 'é😀x'.repeat(n >> 2), cs = []; for (let k = 0; k < n; k += 1000) cs.push(u.subarray(k, k + 1000));
        const same = async (x, y) => { const a = new Uint8Array(await x); if (a.length !== y.length) return a.length; for (let k = 0; k < y.length; k++) if (a[k] !== y[k]) return 'at ' + k; return true; };
        const z = mk(stream(cs, 1)), w = z.clone();
        return [await same(mk(u).arrayBuffer(), u), (await mk(s).text()) === s, await same(mk(stream(cs, 1)).arrayBuffer(), u), await same(mk(new Blob([u, s])).arrayBuffer(), [...u, ...enc.encode(s)]), await same(w.arrayBuffer(), u), await same(z.arrayBuffer(), u)];
      });
      await T.t('body-copies', [kind, bytes1], async () => { const u = bytes1.slice(), out = []; for (const v of [u, u.buffer, new DataView(u.buffer)]) { const x = mk(v); u.fill(1); out.push(await x.arrayBuffer()); u.set(bytes1); } return out; });
      await T.t('body-reader', [kind, bytes2], async () => { const x = mk(bytes2.length ? bytes2 : 'q'), rd = x.body.getReader(), out = []; for (;;) { const c = await rd.read(); if (c.done) break; out.push(...c.value); } return new Uint8Array(out); });
      await T.t('body-json', [kind, i % 3], async () => [await mk(json).json(), await mk('5').json(), await mk(enc.encode('"é"')).json()]);
      await T.tn('body-json-bad', [kind, i % 4], async () => mk(['', '{', '{"a":}', 'nope'][i % 4]).json());
      await T.t('body-error', [kind, i], async () => {
        const k = r.below(4), bad = new ReadableStream({ async start(c) { for (let j = 0; j < k; j++) c.enqueue(new Uint8Array([j])); await 1; c.error(new RangeError('broken')); } });
        try { await mk(bad)[r.pick(['text', 'arrayBuffer'])](); return 'read'; } catch (e) { return [e.name, e.message]; }
      });
      const ps = Array.from({ length: r.below(5) }, () => [r.wellText(), r.wellText()]);
      await T.t('form-urlencoded', [kind, ps], async () => { const f = await mk(new URLSearchParams(ps).toString().replace(/\+/g, '%20'), { headers: { 'content-type': 'application/x-www-form-urlencoded' } }).formData(); return [...f]; });
      // multipart written by hand
      const bnd = r.pick(['bound', '----WebKitFormBoundaryAbC123', 'x'.repeat(60), "a'()+_,-./:=?b"]);
      const fields = Array.from({ length: r.below(5) }, () => ({ n: r.pick([r.word(), r.word(), '', 'a"b', 'x\r\ny', 'u=v; w', ' filename=', 'name', 'é😀']), f: r.chance(1, 2) ? r.pick([r.word() + '.bin', '', 'q"r"', 'Content-Type: a', '\n', 'C:\\x y.txt', '名前; name=.txt']) : null, t: r.pick(['text/plain', 'application/octet-stream', 'image/png', 'text/plain; charset=utf-8', 'text/html;charset=x;q="a"', 'application/vnd.x+json']), h: r.below(6), o: r.below(2), b: r.pick([() => r.bytes(r.len() % 80), () => enc.encode(r.word()), () => enc.encode('line\r\nnext\r\n--' + bnd.slice(0, 3)), () => enc.encode('\r\n'), () => new Uint8Array(0), () => enc.encode('x--' + bnd + 'y'), () => enc.encode('\r\n\r\nz\n'), () => r.bytes(r.chance(1, 20) ? 70000 : 300)])() }));
      const text = (b) => new TextDecoder('utf-8', { ignoreBOM: true }).decode(b);
      const esc = (x) => x.replace(/\n/g, '%0A').replace(/\r/g, '%0D').replace(/"/g, '%22');
      const want = fields.map(f => [f.n, f.f != null ? [f.f, f.t, f.b.slice().buffer] : text(f.b.map(x => x & 0x7f))]);
      await T.want('multipart', [kind, bnd, fields], want, async () => {
        const out = [];
        if (i % 4 === 0) out.push(...enc.encode('preamble\r\n'));
        for (const f of fields) {
          const cd = [f.h === 1 ? 'content-disposition' : f.h === 2 ? 'CONTENT-DISPOSITION' : 'Content-Disposition'] + ': form-data; name="' + esc(f.n) + '"' + (f.f != null ? '; filename="' + esc(f.f) + '"' : ''), ct = (f.h === 1 ? 'content-type' : 'Content-Type') + ':' + (f.h === 3 ? '' : ' ') + f.t;
          const hs = f.f != null ? f.h === 4 ? [ct, cd] : f.h === 5 ? [...(f.o ? [cd, 'X-Other: name="other"'] : ['X-Other: a; name="other"', cd]), ct] : [cd, ct] : f.h === 5 ? ['X-Other: a; name="other"; filename="o"', cd] : [cd];
          for (const x of enc.encode('--' + bnd + '\r\n' + hs.join('\r\n') + '\r\n\r\n')) out.push(x);
          for (const x of f.f != null ? f.b : f.b.map(x => x & 0x7f)) out.push(x);
          out.push(13, 10);
        }
        out.push(...enc.encode('--' + bnd + '--\r\n'));
        const fd = await mk(new Uint8Array(out), { headers: { 'content-type': 'multipart/form-data; boundary=' + (/[^A-Za-z0-9-]/.test(bnd) ? '"' + bnd + '"' : bnd) } }).formData();
        return Promise.all([...fd].map(async ([k, v]) => [k, v instanceof File ? [v.name, v.type, await v.arrayBuffer()] : v]));
      });
      await T.tn('form-type', [kind, i % 3], async () => mk('a=b', { headers: { 'content-type': ['text/plain', 'application/json', 'multipart/form-data'][i % 3] } }).formData());
    }
    // ---- Response and Request attributes
    const st = r.pick([200, 201, 204, 301, 404, 418, 500, 503, 599]), stx = r.pick(['', 'OK', 'Not Found']);
    await T.t('response-props', [st, stx], () => { const x = new Response(st === 204 ? null : 'b', { status: st, statusText: stx, headers: [['X-A', '1'], ['x-a', '2']] }); return [x.status, x.ok, x.statusText, x.headers.get('x-a'), x.bodyUsed, x.redirected]; });
    await T.t('response-json', i, async () => { const v = r.pick([{ a: 1 }, [1, 'é'], null, 'str', 5]), x = Response.json(v, { status: r.pick([200, 201, 500]), headers: r.chance(1, 2) ? { 'x-q': '1' } : undefined }); return [x.status, x.headers.get('content-type'), x.headers.get('x-q'), await x.json()]; });
    await T.t('response-redirect', i % 7, () => { const x = Response.redirect('http://h/' + r.word(), [301, 302, 303, 307, 308, undefined, 200][i % 7]); return [x.status, x.headers.get('location')]; });
    await T.t('response-error', i % 2, () => { const x = Response.error(); return [x.status, x.ok, [...x.headers].length, x.body === null]; });
    await T.t('response-headers-own', i, () => { const h = new Headers({ a: '1' }), x = new Response('b', { headers: h }); h.set('a', '2'); x.headers.set('b', '3'); return [x.headers.get('a'), h.get('b')]; });
    await T.t('request-props', i, async () => { const m = r.pick(['GET', 'POST', 'put', 'DELETE', 'PATCH', 'HEAD', 'options', 'post']), u = 'http://h/' + r.word() + '?a=1'; const x = new Request(u, { method: m, headers: { 'X-A': '1' }, body: /^(get|head)$/i.test(m) ? undefined : 'body' }); const y = new Request(x, { headers: { 'x-b': '2' } }); return [m === 'patch' ? 0 : x.method, x.url, x.headers.get('x-a'), y.method === x.method, y.url, y.headers.get('x-a'), y.headers.get('x-b'), await y.text()]; });
    await T.t('request-copy', i, async () => { const x = new Request('http://h/', { method: 'POST', body: 'abc', headers: { a: '1' } }), y = new Request(x); y.headers.set('a', '2'); return [await y.text(), x.headers.get('a'), y.method]; });
  }
}
