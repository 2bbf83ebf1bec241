"use strict";
// deterministic random numbers (mulberry32)
class Rng {
  constructor(seed) { this.s = Number(BigInt(seed) & 0xffffffffn) ^ Number((BigInt(seed) >> 32n) & 0xffffffffn); }
  random() { this.s = (this.s + 0x6d2b79f5) | 0; let t = Math.imul(this.s ^ (this.s >>> 15), 1 | this.s); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
  int(n) { return Math.floor(this.random() * n); }
  range(a, b) { return a + this.int(b - a); }
  pick(xs) { return xs[this.int(xs.length)]; }
  chance(p) { return this.random() < p; }
  shuffle(xs) { const a = [...xs]; for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}
class Result {
  constructor() { this.counts = {}; this.violations = []; this.nontrivial = false; }
  add(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + Number(n); }
  bad(kind, detail) { if (this.violations.length < 5) this.violations.push({ kind, detail: String(detail).slice(0, 2500) }); }
}
module.exports = { Rng, Result };
