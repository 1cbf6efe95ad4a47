// Stand-in for big.js: decimals as an integer times a power of ten; division to 20 places, half up.
const DP = 20;
const abs = (x: bigint): bigint => (x < 0n ? -x : x);
export class Big {
  m: bigint;
  e: number; // value = m * 10^-e, e >= 0
  constructor(x: any) {
    if (x instanceof Big) {
      this.m = x.m;
      this.e = x.e;
      return;
    }
    const s = String(x);
    const r = /^(-?)(\d+)?(?:\.(\d+))?(?:e([+-]?\d+))?$/i.exec(s);
    if (!r || (r[2] === undefined && r[3] === undefined))
      throw new Error('[big.js] Invalid number');
    let m = BigInt((r[2] ?? '') + (r[3] ?? ''));
    let e = (r[3] ?? '').length - Number(r[4] ?? 0);
    if (e < 0) {
      m *= 10n ** BigInt(-e);
      e = 0;
    }
    this.m = r[1] ? -m : m;
    this.e = e;
    this.trim();
  }
  private static of(m: bigint, e: number): Big {
    const b = new Big(0);
    b.m = m;
    b.e = e;
    return b.trim();
  }
  private trim(): this {
    while (this.e > 0 && this.m % 10n === 0n) {
      this.m /= 10n;
      this.e--;
    }
    return this;
  }
  private static al(a: Big, b: Big): [bigint, bigint, number] {
    const e = Math.max(a.e, b.e);
    return [a.m * 10n ** BigInt(e - a.e), b.m * 10n ** BigInt(e - b.e), e];
  }
  plus(x: any): Big { const [p, q, e] = Big.al(this, new Big(x)); return Big.of(p + q, e); }
  add(x: any): Big { return this.plus(x); }
  minus(x: any): Big { const [p, q, e] = Big.al(this, new Big(x)); return Big.of(p - q, e); }
  sub(x: any): Big { return this.minus(x); }
  times(x: any): Big { const o = new Big(x); return Big.of(this.m * o.m, this.e + o.e); }
  mul(x: any): Big { return this.times(x); }
  div(x: any): Big {
    const o = new Big(x);
    if (o.m === 0n) throw new Error('[big.js] Division by zero');
    const n = abs(this.m) * 10n ** BigInt(DP + o.e + 1);
    const d = abs(o.m) * 10n ** BigInt(this.e);
    const q = (n / d + 5n) / 10n;
    return Big.of(this.m < 0n !== o.m < 0n ? -q : q, DP);
  }
  pow(n: number): Big {
    let r = new Big(1);
    for (let i = 0; i < Math.abs(n); i++) r = r.times(this);
    return n < 0 ? new Big(1).div(r) : r;
  }
  neg(): Big { return Big.of(-this.m, this.e); }
  abs(): Big { return Big.of(abs(this.m), this.e); }
  cmp(x: any): number { const [p, q] = Big.al(this, new Big(x)); return p < q ? -1 : p > q ? 1 : 0; }
  eq(x: any): boolean { return this.cmp(x) === 0; }
  gt(x: any): boolean { return this.cmp(x) > 0; }
  gte(x: any): boolean { return this.cmp(x) >= 0; }
  lt(x: any): boolean { return this.cmp(x) < 0; }
  lte(x: any): boolean { return this.cmp(x) <= 0; }
  round(dp = 0, rm = 1): Big {
    if (dp >= this.e) return new Big(this);
    const f = 10n ** BigInt(this.e - dp);
    const a = abs(this.m);
    let q = a / f;
    const r = a % f;
    if (rm === 1 ? r * 2n >= f : rm === 2 ? r * 2n > f || (r * 2n === f && q % 2n === 1n) : rm === 3 && r > 0n) q += 1n;
    const v = this.m < 0n ? -q : q;
    return dp >= 0 ? Big.of(v, dp) : Big.of(v * 10n ** BigInt(-dp), 0);
  }
  toFixed(dp?: number, rm = 1): string {
    const b = dp === undefined ? this : this.round(dp, rm);
    const e = dp ?? b.e;
    const s = (abs(b.m) * 10n ** BigInt(e - b.e)).toString().padStart(e + 1, '0');
    return (this.m < 0n ? '-' : '') + (e ? s.slice(0, -e) + '.' + s.slice(-e) : s);
  }
  toString(): string {
    const s = this.toFixed();
    const x = Number(s);
    return Math.abs(x) >= 1e21 || (x !== 0 && Math.abs(x) < 1e-6) ? this.toExp() : s;
  }
  private toExp(): string {
    const d = abs(this.m).toString();
    const x = d.length - 1 - this.e;
    const t = d.replace(/0+$/, '');
    return (this.m < 0n ? '-' : '') + t[0] + (t.length > 1 ? '.' + t.slice(1) : '') + 'e' + (x < 0 ? '' : '+') + x;
  }
  valueOf(): string { return this.toString(); }
  toJSON(): string { return this.toString(); }
  toNumber(): number { return this.m === 0n ? 0 : Number(this.toExp()); }
}
export default Big;
