// ReadableStream: what is delivered, how it ends, and what the source is told
async function body(T) {
  const r = T.rng;
  const ticks = async (n = 30) => { for (let i = 0; i < n; i++) await null; };
  const LAZY = { highWaterMark: 0 };
  // views: what they show counts, not the buffer behind
  const plain = (v) => v instanceof Uint8Array ? 'bytes ' + hexAll(v) : v;
  const fate = (p) => { const o = { s: 'pending' }; p.then(v => { o.s = v && typeof v === 'object' && 'done' in v ? (v.done ? 'done' : ['value', plain(v.value)]) : ['ok', v]; }, e => { o.s = ['rejected', e instanceof Error ? e.name : e]; }); return o; };
  const chunkList = (n) => Array.from({ length: n }, () => r.pick([() => r.below(100), () => r.word(), () => r.bytes(r.below(5)), () => r.bytes(9).subarray(r.below(5), 4 + r.below(6)), () => ({ k: r.below(9) }), () => undefined, () => null, () => 0, () => ''])());
  // a source which delivers the chunks, then ends (or fails)
  function source(chunks, how, end, log) {
    let k = 0;
    const finish = (c) => end === 'close' ? c.close() : end === 'error' ? c.error(new RangeError('src')) : undefined;
    const step = (c) => { if (k < chunks.length) c.enqueue(chunks[k++]); else finish(c); };
    const s = { cancel(x) { log.push(['cancel', x]); } };
    switch (how) {
      case 0: s.start = (c) => { for (const x of chunks) c.enqueue(x); if (end === 'close') c.close(); }; if (end === 'error') s.pull = (c) => { if (!s.f) { s.f = 1; c.error(new RangeError('src')); } }; break;
      case 1: s.pull = step; break;
      case 2: s.pull = async (c) => { await null; await null; step(c); }; break;
      case 3: s.start = async (c) => { await null; for (const x of chunks) { await ticks(3); c.enqueue(x); } }; s.pull = step; k = chunks.length; break;
      case 4: s.pull = (c) => { if (k < chunks.length) { for (let j = 1 + (k % 3); j > 0 && k < chunks.length; j--) c.enqueue(chunks[k++]); } else finish(c); }; break;
      case 5: s.pull = (c) => { if (k < chunks.length) c.enqueue(chunks[k++]); else if (end === 'error') throw new RangeError('src'); else finish(c); }; break;
      case 6: s.pull = async (c) => { await ticks(2); if (k < chunks.length) c.enqueue(chunks[k++]); else if (end === 'error') { await null; throw new RangeError('src'); } else finish(c); }; break;
    }
    return s;
  }
  const bounded = async (p) => { const o = fate(p); for (let i = 0; i < 12 && o.s === 'pending'; i++) { await ticks(20); if (o.s === 'pending' && i) await new Promise(f => setTimeout(f, 1)); } return o.s; };
  async function drain(rd, max = 60) { const out = []; for (let i = 0; i < max; i++) { const x = await bounded(rd.read()); out.push(x); if (!Array.isArray(x) || x[0] !== 'value') break; } return out; }
  for (let i = 0; i < T.n; i++) {
    const chunks = chunkList(r.below(8)), how = r.below(7), end = r.pick(['close', 'close', 'error']), log = [];
    await T.t('rs-data', [how, end, chunks], async () => { const l = [], s = new ReadableStream(source(chunks, how, end, l), LAZY), rd = s.getReader(), out = await drain(rd); return [out, s.locked, await bounded(rd.closed), await bounded(rd.read()), l]; });
    const par = 1 + r.below(6);
    await T.t('rs-concurrent', [how, end, chunks, par], async () => { const s = new ReadableStream(source(chunks, how, end, []), LAZY), rd = s.getReader(), ps = Array.from({ length: par }, () => fate(rd.read())); for (let k = 0; k < 40; k++) await ticks(10); const out = ps.map(p => p.s); return [out, await drain(rd)]; });
    // cancel at some point: the source is told once, readers end
    const at = r.below(4), why = r.pick(['why', undefined, 7]), withRead = r.chance(1, 2), viaReader = r.chance(1, 2), cfail = r.chance(1, 5);
    await T.t('rs-cancel', [how, chunks, at, why, withRead, viaReader, cfail], async () => {
      const l = [], src = source(chunks, how === 3 ? 1 : how, 'never', l); if (cfail) src.cancel = (x) => { l.push(x); throw new RangeError('c'); };
      const s = new ReadableStream(src, LAZY); let rd = s.getReader(), out = [];
      for (let k = 0; k < at && k < chunks.length; k++) out.push(await bounded(rd.read()));
      const pend = withRead && viaReader && how === 1 ? fate(rd.read()) : null;
      let c;
      if (viaReader) c = await bounded(rd.cancel(why)); else { if (pend) await ticks(); rd.releaseLock(); c = await bounded(s.cancel(why)); }
      await ticks();
      if (viaReader) { try { rd.releaseLock(); } catch {} }
      const rd2 = s.getReader();
      return [out, c, pend && viaReader ? pend.s === 'pending' : 0, l, await bounded(rd2.read()), await bounded(rd2.cancel('again')), l.length];
    });
    await T.t('rs-cancel-ended', [how, end], async () => { const l = [], s = new ReadableStream(source(chunks, how, end, l), LAZY), rd = s.getReader(); await drain(rd); rd.releaseLock(); return [await bounded(s.cancel('late')), l]; });
    // hand over between readers loses nothing
    await T.t('rs-relock', [how, chunks], async () => { const s = new ReadableStream(source(chunks, how, 'close', []), LAZY), out = []; for (let k = 0; k < 40; k++) { const rd = s.getReader(), x = await bounded(rd.read()); out.push(x, s.locked); rd.releaseLock(); out.push(s.locked, await bounded(rd.read())); if (!Array.isArray(x)) break; } return out; });
    await T.t('rs-lock', i % 2, async () => { const s = new ReadableStream(source(chunks, 0, 'close', [])), out = [s.locked], a = s.getReader(); for (const f of [() => s.getReader(), () => s.tee(), () => new ReadableStreamDefaultReader(s)]) { try { f(); out.push('ok'); } catch (e) { out.push(e.name); } } a.releaseLock(); s.getReader(); return [out, s.locked]; });
    // tee: both branches see everything, in order, however they are read
    const order = Array.from({ length: 30 }, () => r.below(2)), stop = r.pick([-1, -1, 0, 1, 2, 3]), side = r.below(2);
    await T.t('rs-tee', [how, chunks, order.join(''), stop, side], async () => {
      const l = [], s = new ReadableStream(source(chunks, how, 'close', l), LAZY), br = s.tee().map(b => b.getReader()), out = [[], []], open = [true, true];
      let k = 0;
      for (const o of [...order, ...Array(20).fill(0), ...Array(20).fill(1)]) {
        if (k++ === stop) { open[side] = false; br[side].cancel('x'); }
        if (!open[o]) continue;
        const x = await bounded(br[o].read()); out[o].push(x); if (!Array.isArray(x) || x[0] !== 'value') open[o] = false;
      }
      return [out.map(x => x.map(y => show(y))), stop < 0 || !l.length];
    });
    // a source which fails: each branch yields a prefix, then rejects
    await T.t('rs-tee-error', [how, chunks], async () => {
      const s = new ReadableStream(source(chunks, how === 3 ? 2 : how, 'error', []), LAZY), all = await Promise.all(s.tee().map(x => drain(x.getReader())));
      return all.map(x => { const last = x.pop(); return [show(last), x.every((y, j) => show(y) === show(['value', plain(chunks[j])]))]; });
    });
    await T.t('rs-tee-concurrent', [how, chunks], async () => { const s = new ReadableStream(source(chunks, how, 'close', []), LAZY), [a, b] = s.tee().map(x => drain(x.getReader())); return (await Promise.all([a, b])).map(x => x.map(y => show(y))); });
    await T.t('rs-tee-cancel', [how, i % 2], async () => { const l = [], s = new ReadableStream(source(chunks, how === 3 ? 1 : how, 'never', l), LAZY), [a, b] = s.tee(); const p = a.cancel('A'), before = l.length, q = b.cancel('B'); return [before, await bounded(p.then(() => 1)), await bounded(q.then(() => 1)), l.length]; });
    await T.t('rs-tee-tee', chunks, async () => { const s = new ReadableStream(source(chunks, how, 'close', []), LAZY), [a, b] = s.tee(), [c, d] = b.tee(); return (await Promise.all([a, c, d].map(x => drain(x.getReader())))).map(x => x.map(y => show(y))); });
    await T.t('rs-tee-independent', i % 2, async () => { const u = r.bytes(8), [a, b] = new ReadableStream(source([u], 1, 'close', []), LAZY).tee().map(x => x.getReader()); const x = await a.read(), y = await b.read(); return [show(x.value), show(y.value)]; });
    // misuse of the controller
    await T.t('rs-controller', i % 4, async () => {
      const out = []; let c; const s = new ReadableStream({ start(x) { c = x; } }), t = (n, f) => { try { f(); out.push(n); } catch (e) { out.push(n + e.name); } };
      if (i % 4 === 0) { t('e', () => c.enqueue(1)); t('c', () => c.close()); t('c2', () => c.close()); t('e2', () => c.enqueue(2)); t('err', () => c.error(new RangeError('x'))); out.push(await drain(s.getReader())); }
      if (i % 4 === 1) { t('e', () => c.enqueue(1)); t('err', () => c.error(new RangeError('x'))); t('err2', () => c.error(new TypeError('y'))); t('e2', () => c.enqueue(2)); t('c', () => c.close()); const rd = s.getReader(); out.push(await bounded(rd.read()), await bounded(rd.read()), await bounded(rd.closed)); }
      if (i % 4 === 2) { const rd = s.getReader(), p = fate(rd.read()), q = fate(rd.read()), cl = fate(rd.closed); t('c', () => c.close()); await ticks(); out.push(p.s, q.s, cl.s); t('e', () => c.enqueue(1)); }
      if (i % 4 === 3) { const rd = s.getReader(), p = fate(rd.read()), q = fate(rd.read()), cl = fate(rd.closed); t('e', () => c.enqueue('v')); t('err', () => c.error(new RangeError('x'))); await ticks(); out.push(p.s, q.s, cl.s, await bounded(rd.read())); }
      return out;
    });
    await T.t('rs-start', i % 4, async () => {
      if (i % 4 === 0) { const s = new ReadableStream({ async start() { await null; throw new RangeError('s'); } }), rd = s.getReader(); return [await bounded(rd.read()), await bounded(rd.closed)]; }
      if (i % 4 === 1) { new ReadableStream({ start() { throw new RangeError('s'); } }); return 'made'; }
      if (i % 4 === 2) { let n = 0; const rd = new ReadableStream({ async start(c) { await ticks(4); c.enqueue('first'); }, pull(c) { if (n++) c.close(); else c.enqueue('second'); } }, LAZY).getReader(); return drain(rd); }
      const that = { start() { return this === that; }, pull(c) { c.enqueue(this === that); c.close(); }, cancel() {} }; return drain(new ReadableStream(that, LAZY).getReader());
    });
    // random histories of a push source
    const ops = Array.from({ length: 14 }, () => r.below(12));
    await T.t('rs-history', ops, async () => {
      let c, rd = null; const l = [], s = new ReadableStream({ start(x) { c = x; }, cancel(x) { l.push(['cancel', x]); } }, LAZY), reads = [], out = []; let n = 0, ended = false;
      for (const o of ops) {
        const t = (f) => { try { f(); out.push('ok'); } catch (e) { out.push(e.name); } };
        switch (o) {
          case 0: case 1: case 2: t(() => c.enqueue(n++)); break;
          case 3: if (r.below(3) === 0) { t(() => c.close()); ended = true; } break;
          case 4: if (r.below(4) === 0 && !ended) c.error(new RangeError('h')); break;
          case 5: case 6: case 7: case 8: if (!rd) rd = s.getReader(); reads.push(fate(rd.read())); break;
          case 9: if (rd && reads.every(x => x.s !== 'pending')) { rd.releaseLock(); rd = null; } break;
          case 10: if (rd && !ended && r.below(4) === 0) { reads.push(fate(rd.cancel('h'))); await ticks(); try { rd.releaseLock(); } catch {} rd = null; } break;
          case 11: out.push(s.locked); break;
        }
        await ticks(8);
      }
      return [out, reads.map(x => x.s), l];
    });
  }
}
