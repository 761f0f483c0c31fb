async function body(T) {
  const r = T.rng;
  const enc = new TextEncoder();
  for (let i = 0; i < T.n; i++) {
    const s = r.text();
    await T.t('encode', s, () => enc.encode(s).slice());
    await T.t('encode-any', i % 12, () => Array.from(enc.encode([undefined, null, 12.5, true, '', [1, 'é'], { toString() { return 'ü' } }, 10n, -0, NaN, [[]], {}][i % 12])));
    await T.t('encode-none', 0, () => enc.encode().length);
    const room = r.below(2 * s.length + 3);
    const off = r.below(4), extra = r.below(4);
    await T.t('encode-into', [s, room, off], () => {
      const buf = new Uint8Array(off + room + extra).fill(0x55);
      const res = enc.encodeInto(s, buf.subarray(off, off + room));
      return [res.read, res.written, buf];
    });
    // valid utf-8, mutated utf-8, random bytes
    let b = r.pick([() => enc.encode(s), () => { const x = enc.encode(s).slice(); for (let k = r.below(3); k >= 0 && x.length; k--) x[r.below(x.length)] = r.u32(); return x; }, () => r.bytes(r.below(12)),
      () => new Uint8Array(Array.from({ length: r.below(10) }, () => r.pick([0xc0, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xbb, 0x41, 0xff, 0xfe])))])();
    if (r.chance(1, 4)) b = new Uint8Array([...r.pick([[0xef, 0xbb, 0xbf], [0xfe, 0xff], [0xff, 0xfe], [0xef, 0xbb]]), ...b]);
    const fatal = r.chance(1, 3), ignoreBOM = r.chance(1, 3);
    const label = r.pick(['utf-8', 'UTF8', ' utf-8\t', 'unicode-1-1-utf-8', 'Utf-8', undefined]);
    await T.tn('decode-utf8', [b, label, fatal, ignoreBOM], () => new TextDecoder(label, { fatal, ignoreBOM }).decode(b));
    const shift = r.below(5);
    await T.tn('decode-view', [b, shift], () => {
      const big = new Uint8Array(b.length + 16); big.fill(0x7a); big.set(b, shift);
      const d = new TextDecoder('utf-8', { fatal });
      return [d.decode(big.subarray(shift, shift + b.length)), d.decode(new DataView(big.buffer, shift, b.length)), d.decode(b.slice().buffer), b.length % 2 ? 0 : d.decode(new Uint16Array(b.slice().buffer)), b.length % 2 ? 0 : d.decode(new Int8Array(b.slice().buffer))];
    });
    const wide = r.pick(['utf-16le', 'utf-16', 'utf-16be', 'UTF-16LE', 'ucs-2', 'iso-10646-ucs-2']);
    await T.tn('decode-utf16', [b, wide, fatal, ignoreBOM], () => new TextDecoder(wide, { fatal, ignoreBOM }).decode(b));
    const w16 = new Uint8Array(new Uint16Array(Array.from(s, c => c.charCodeAt(0))).buffer);
    await T.tn('decode-utf16', [w16, wide], () => new TextDecoder(wide, { fatal }).decode(w16));
    const single = r.pick(['iso-8859-2', 'iso-8859-5', 'koi8-r', 'windows-1251', 'windows-1250', 'iso-8859-15', 'macintosh']);
    const sb = r.bytes(r.below(40));
    await T.tn('decode-legacy', [sb, single], () => new TextDecoder(single).decode(sb.map(x => x < 0xa0 && x >= 0x80 ? 0x41 : x)));
    const multi = r.pick([['shift_jis', [0x82, 0xa0, 0x93, 0xfa, 0x41, 0x96, 0x7b]], ['euc-jp', [0xc6, 0xfc, 0xcb, 0xdc, 0x61]], ['gbk', [0xc4, 0xe3, 0xba, 0xc3]], ['big5', [0xa7, 0x41, 0xa6, 0x6e]], ['euc-kr', [0xc7, 0xd1, 0xb1, 0xdb]]]);
    await T.tn('decode-legacy', multi, () => new TextDecoder(multi[0]).decode(new Uint8Array(multi[1])));
    const bad = r.pick(['utf-7', 'nope', '', 'utf 8', 'utf-8x', 'replacement', 'utf_8', 'x-unknown', '\u00a0utf-8']);
    await T.tn('label-bad', bad, () => new TextDecoder(bad).encoding);
    const good = r.pick(['utf-8', 'utf8', 'UTF-8', 'utf-16', 'utf-16le', 'utf-16be', 'unicode', 'ISO-8859-2', 'latin2', 'koi8-r', 'sjis', 'shift-jis', 'euc-jp', 'gb2312', 'gbk', 'big5', 'cp1251', 'cp866', '  utf-8 ', 'euc-kr']);
    await T.tn('label-good', good, () => { const d = new TextDecoder(good, { fatal, ignoreBOM }); return [d.encoding, d.fatal, d.ignoreBOM]; });
    await T.tn('decode-empty', 0, () => [new TextDecoder().decode(), new TextDecoder().decode(undefined), new TextDecoder().decode(new Uint8Array(0)), new TextEncoder().encoding, new TextDecoder().encoding]);
    await T.tn('decode-type', i % 7, () => new TextDecoder().decode(['str', 5, {}, [1], true, () => 1, Symbol.iterator][i % 7]));
    const big = r.wellText(r.pick([100, 1000])).replace(/^\ufeff+/, '');
    await T.t('round-trip', big.length, () => new TextDecoder().decode(enc.encode(big)) === big);
    const d = new TextDecoder('utf-8', { fatal: true });
    await T.tn('decoder-reuse', b, () => { let a; try { a = d.decode(b); } catch (e) { a = e.name; } return [a, d.decode(enc.encode('ok'))]; });
    if (i % 3 === 0) await T.t('decode-stream', [b, i], () => { const x = new TextDecoder(), k = r.below(b.length + 1); return x.decode(b.subarray(0, k), { stream: true }) + x.decode(b.subarray(k)); });
    if (i % 40 === 0) { const n = 200000 + r.below(100), c = r.pick(['é', '\u{1f600}', 'a', '\u20ac']); const str = c.repeat(n); await T.t('large', [n, c], () => { const e = enc.encode(str); return [e.length, new TextDecoder().decode(e) === str]; }); }
  }
}
