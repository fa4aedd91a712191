// usage: node run.mjs|run.js MODULE cases   (module namespace path in env NS)
const fs = require('fs');
function hex(b) { return Array.from(b).map(x => (x & 255).toString(16).padStart(2, '0')).join(''); }
function unhex(s) { const r = []; for (let i = 0; i + 1 < s.length; i += 2) r.push(parseInt(s.substr(i, 2), 16)); return r; }
function camel(s) { const p = s.split('_').map(x => x.slice(0, 1).toUpperCase() + x.slice(1)).join(''); return p.slice(0, 1).toLowerCase() + p.slice(1); }
function step(o, n) { if (/^[0-9]+$/.test(n)) return Number(n); if (n in o) return n; const c = camel(n); return c; }
function fbits(t, v) { const b = new DataView(new ArrayBuffer(8)); if (t === 'f32') { b.setFloat32(0, v); return b.getUint32(0).toString(10); } b.setFloat64(0, v); return b.getBigUint64(0).toString(10); }
function ffrom(t, s) { const b = new DataView(new ArrayBuffer(8)); if (t === 'f32') { b.setUint32(0, Number(s)); return b.getFloat32(0); } b.setBigUint64(0, BigInt(s)); return b.getFloat64(0); }
function run(mod, text) {
  let o = null, cls = null, start = 0, n = 0, buf = [], kind = '';
  const P = [];
  const U8 = process.env.JSBUF === 'array' ? (x => x.slice()) : (x => Uint8Array.from(x));
  for (const ln of text.split('\n')) {
    const a = ln.split(' ');
    try {
      switch (a[0]) {
        case 'CASE': console.log('CASE ' + a[1]); kind = a[2]; cls = mod[a[3]]; start = Number(a[4]); n = Number(a[5]); buf = unhex(a[6] || ''); o = new cls(); break;
        case 'SET': {
          const p = a[1].split('.'); let x = o;
          for (const s of p.slice(0, -1)) x = x[step(x, s)];
          let v;
          const t = a[2];
          if (t === 's') v = Buffer.from(unhex(a[3] || '')).toString('utf8');
          else if (t === 'y') v = Uint8Array.from(unhex(a[3] || ''));
          else if (t === 'b') v = a[3] === '1';
          else if (t[0] === 'f') v = ffrom(t, a[3]);
          else if (t === 'i64' || t === 'u64') v = BigInt(a[3]);
          else v = Number(a[3]);
          x[step(x, p[p.length - 1])] = v; break;
        }
        case 'RUN':
          if (kind === 'encode') {
            const b = U8(buf);
            console.log('R ' + cls.encode(o, b, start)); console.log('B ' + hex(b));
            console.log('E ' + hex(cls.encode(o)));
          } else if (kind === 'decode' || kind === 'mald') console.log('R ' + cls.decode(o, U8(buf.slice(0, start + n)), start));
          else if (kind === 'size') { console.log('R ' + cls.encode_size(o)); console.log('S ' + cls.size()); }
          else if (kind === 'get') console.log('R ' + String(o[a[1] in o ? a[1] : camel(a[1])]));
          else console.log('R ' + cls.decode_size(U8(buf.slice(0, start + n)), start));
          break;
        case 'GET': {
          let x = o;
          for (const s of a[1].split('.')) x = x[step(x, s)];
          let v; const t = a[2];
          if (t === 's') v = Buffer.from(x, 'utf8').toString('hex');
          else if (t === 'y') v = hex(x);
          else if (t === 'b') v = x ? '1' : '0';
          else if (t[0] === 'f') v = fbits(t, x);
          else v = String(x);
          console.log('V ' + a[1] + ' ' + v); break;
        }
      }
    } catch (e) { console.log('X ' + String(e).replace(/\n/g, ' ')); }
  }
}
module.exports = run;
if (require.main === module) {
  (async () => {
    let m = process.env.ESM ? (await import(process.argv[2])).default : require(process.argv[2]);
    for (const p of (process.env.NS || '').split('.').filter(x => x)) if (m[p] !== undefined) m = m[p]; 
    run(m, fs.readFileSync(process.argv[3], 'utf8'));
  })();
}
