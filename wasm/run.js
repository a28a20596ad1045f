// Moves requests between the harness and the WebAssembly build of vmdrv.c.
const fs = require('fs');
// Math.round rounds halves upwards, round() away from zero
const round = x => { const t = Math.trunc(x); return Math.abs(x - t) >= 0.5 ? t + Math.sign(x) : t; };
const rint = x => { const f = Math.floor(x), d = x - f; return d < 0.5 ? f : d > 0.5 ? f + 1 : f % 2 ? f + 1 : f; };
const math = { round, rint, nearbyint: rint, fabs: Math.abs, fmod: (a, b) => a % b, fmin: Math.min, fmax: Math.max, lround: round, lrint: rint, llround: x => BigInt(round(x)), ldexp: (a, n) => a * 2 ** n,
  copysign: (a, b) => (Math.sign(b) < 0 || Object.is(b, -0) ? -Math.abs(a) : Math.abs(a)) };
const known = k => math[k] ?? Math[k] ?? (k.endsWith('f') ? known(k.slice(0, -1)) : undefined);
const env = new Proxy({}, { get: (t, k) => known(k) ?? (() => { throw new Error('no function ' + k); }) });
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const imports = {}; for (const i of WebAssembly.Module.imports(mod)) if (i.kind === 'function') (imports[i.module] ??= {})[i.name] = env[i.name];
const x = new WebAssembly.Instance(mod, imports).exports;
function read(n) {
  const b = Buffer.alloc(n); let k = 0;
  while (k < n) { let r; try { r = fs.readSync(0, b, k, n - k); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; } if (!r) process.exit(0); k += r; }
  return b;
}
function write(b) { let k = 0; while (k < b.length) { try { k += fs.writeSync(1, b, k, b.length - k); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } }
for (;;) {
  const n = read(4).readUInt32LE(0), r = read(n), p = x.req(n) >>> 0;
  new Uint8Array(x.memory.buffer, p, n).set(r);
  const m = x.serve(p, n) >>> 0, o = Buffer.alloc(4 + m); o.writeUInt32LE(m, 0);
  Buffer.from(x.memory.buffer, x.res() >>> 0, m).copy(o, 4); write(o);
}
