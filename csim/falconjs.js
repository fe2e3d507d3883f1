// Runs one boot of the JavaScript build: plan on standard input, results on standard output.
// node falconjs.js PATH_OF_FALCON_JS
const fs = require('fs');
const plan = JSON.parse(fs.readFileSync(0, 'utf8'));
let state = BigInt(plan.entropy), pos = 0;
function next() {
  const M = (1n << 64n) - 1n;
  state = (state + 0x9e3779b97f4a7c15n) & M;
  let z = state;
  z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & M;
  z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & M;
  return z ^ (z >> 31n);
}
function fill(b) {
  const v = new Uint8Array(b.buffer || b, b.byteOffset || 0, b.byteLength);
  for (let i = 0; i < v.length; i++) {
    v[i] = Number((next() >> 13n) & 255n);
    if (plan.fix && ((pos % 48) + 48 - plan.fix[0]) % 48 < plan.fix[1]) v[i] = 0x5a;
    pos++;
  }
  return b;
}
// the seams: the system's entropy, clocks and the process number
const c = require('crypto');
c.randomFillSync = fill;
c.randomBytes = (n) => fill(Buffer.alloc(n));
c.getRandomValues = fill;
c.webcrypto.getRandomValues = fill;
globalThis.crypto.getRandomValues = fill;
Math.random = () => 0.5;
Date.now = () => 1700000000000;
globalThis.performance.now = () => 0;
Object.defineProperty(process, 'pid', { value: 4242 });
const Module = require(process.argv[2]);
(typeof Module === 'function' ? Module() : Module.default()).then((f) => {
  const res = [];
  const put = (b) => { const p = f._malloc(b.length + 8); f.HEAPU8.set(b, p); return p; };
  const get = (p, n) => Buffer.from(f.HEAPU8.subarray(p, p + n)).toString('hex');
  for (const o of plan.ops) {
    if (o.kind === 'kp') {
      const pk = f._malloc(1025), sk = f._malloc(1281);
      const ret = f._zknox_crypto_sign_keypair(pk, sk);
      res.push({ ret, pk: get(pk, 1025), sk: get(sk, 1281) });
    } else {
      const m = Buffer.from(o.m, 'hex'), sm = f._malloc(m.length + 1200), len = f._malloc(8);
      const ret = f._zknox_crypto_sign(sm, len, put(m), BigInt(m.length), put(Buffer.from(o.sk, 'hex')));
      res.push({ ret, sm: ret ? '' : get(sm, f.HEAPU32[len >> 2]) });
    }
  }
  process.stdout.write(JSON.stringify(res) + '\n');
});
