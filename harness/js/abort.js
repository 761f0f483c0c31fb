// AbortController and AbortSignal: abort happens once, keeps its reason, tells each listener once
async function body(T) {
  const r = T.rng;
  if (T.ref) process.on('uncaughtException', () => {}); // what listeners throw; a worker logs it
  const NONE = {};
  const reasons = () => r.pick([NONE, NONE, undefined, null, 0, '', false, NaN, 'why', 7, true, { k: 1 }, new RangeError('r'), [1], 5n]);
  const why = (x) => x instanceof Error ? 'error ' + x.name : x;
  for (let i = 0; i < T.n; i++) {
    // one or more controllers, listeners which interfere with each other, every step looked at
    const plan = Array.from({ length: 3 + r.below(12) }, () => [r.below(9), r.below(2), r.below(6), reasons()]);
    await T.t('abort-history', plan.map(p => [p[0], p[1], p[2], p[3] === NONE ? 'none' : why(p[3])]), async () => {
      const cs = [new AbortController(), new AbortController()], log = [], fns = [];
      const go = (c, why) => why === NONE ? c.abort() : c.abort(why);
      for (let k = 0; k < 6; k++) fns.push(function (e) {
        const me = cs.findIndex(c => c.signal === e.target), c = cs[me];
        log.push(['call', k, me, e.type, this === e.target, c.signal.aborted, why(c.signal.reason)]);
        if (log.length > 200) return;
        if (k === 1) c.signal.removeEventListener('abort', fns[2]);
        if (k === 2 && !cs[1 - me].signal.aborted) cs[1 - me].signal.addEventListener('abort', fns[5]); // (node calls what is added to the list it goes through)
        if (k === 3) c.abort('again');
        if (k === 4) { cs[1 - me].abort('other'); }
        if (k === 5) throw new Error('from a listener');
      });
      for (const [op, ci, fi, reason] of plan) {
        const s = cs[ci].signal;
        switch (op) {
          case 0: case 1: case 2: case 3: s.addEventListener('abort', fns[fi]); break;
          case 4: s.removeEventListener('abort', fns[fi]); break;
          case 5: log.push(go(cs[ci], reason)); break;
          case 6: try { s.throwIfAborted(); log.push('no'); } catch (e) { log.push(['thrown', why(e)]); } break;
          case 7: s.addEventListener('other', fns[fi]); s.removeEventListener('abort', () => {}); s.removeEventListener('other', fns[fi]); break;
          case 8: await null; break;
        }
        log.push([s.aborted, why(s.reason), cs[ci].signal === s]);
      }
      for (const c of cs) { c.abort('end'); log.push([c.signal.aborted, why(c.signal.reason)]); }
      return log;
    });
    const x = reasons();
    await T.t('abort-static', x === NONE ? 'none' : why(x), () => { const s = x === NONE ? AbortSignal.abort() : AbortSignal.abort(x); let n = 0; s.addEventListener('abort', () => n++); let t; try { s.throwIfAborted(); } catch (e) { t = e; } return [s.aborted, why(s.reason), s instanceof AbortSignal, Object.is(t, s.reason), n, s.reason instanceof Error]; });
    if (i % 8 === 0) {
      const ms = r.below(12);
      await T.want('abort-timeout', ms, [false, false, true, 'error TimeoutError', [['abort', true, true]]], async () => {
        const s = AbortSignal.timeout(ms), l = []; s.addEventListener('abort', e => l.push([e.type, e.target === s, s.aborted]));
        const at = Date.now(), before = s.aborted; let early = false;
        for (let k = 0; k < 300 && !s.aborted; k++) await new Promise(f => setTimeout(f, 2));
        if (Date.now() - at + 2 < ms) early = true;
        await new Promise(f => setTimeout(f, 4));
        return [before, early, s.aborted, why(s.reason), l];
      });
    }
  }
}
