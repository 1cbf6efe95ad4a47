// Stand-in for bn.js: the operations of its documented interface on a BigInt.
function parse(x: any, base: any, endian: any): bigint {
  if (x instanceof BN) return x.v;
  if (typeof x === 'bigint') return x;
  if (typeof x === 'number') {
    if (!Number.isInteger(x) || Math.abs(x) >= 0x20000000000000)
      throw new Error('Assertion failed');
    return BigInt(x);
  }
  if (typeof x === 'string') {
    const b = base === 'hex' || base === 16 ? 16 : 10;
    const t = x.replace(/\s+/g, '');
    if (!(b === 16 ? /^-?[0-9a-fA-F]+$/ : /^-?[0-9]+$/).test(t))
      throw new Error('Invalid character');
    const neg = t.startsWith('-');
    const u = neg ? t.slice(1) : t;
    const v = BigInt((b === 16 ? '0x' : '') + u);
    return neg ? -v : v;
  }
  if (x && typeof x === 'object' && typeof x.length === 'number') {
    const e = base === 'le' || base === 'be' ? base : endian;
    const bytes = Array.from(x as ArrayLike<number>);
    if (e !== 'le') bytes.reverse();
    let v = 0n;
    for (let i = bytes.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(bytes[i]);
    return v;
  }
  throw new Error('Assertion failed');
}

const abs = (x: bigint): bigint => (x < 0n ? -x : x);
const num = (x: any): bigint => {
  if (typeof x !== 'number' || Math.abs(x) >= 0x4000000)
    throw new Error('Assertion failed');
  return BigInt(x);
};

export class BN {
  v: bigint;
  static BN = BN;
  constructor(x: any = 0, base?: any, endian?: any) {
    this.v = parse(x ?? 0, base, endian);
  }
  static isBN(x: any): boolean {
    return x instanceof BN;
  }
  static max(a: BN, b: BN): BN {
    return a.v > b.v ? a : b;
  }
  static min(a: BN, b: BN): BN {
    return a.v < b.v ? a : b;
  }
  clone(): BN {
    return new BN(this.v);
  }
  private set(v: bigint): this {
    this.v = v;
    return this;
  }
  add(o: BN): BN { return new BN(this.v + o.v); }
  iadd(o: BN): this { return this.set(this.v + o.v); }
  sub(o: BN): BN { return new BN(this.v - o.v); }
  isub(o: BN): this { return this.set(this.v - o.v); }
  mul(o: BN): BN { return new BN(this.v * o.v); }
  imul(o: BN): this { return this.set(this.v * o.v); }
  div(o: BN): BN {
    if (o.v === 0n) throw new Error('Assertion failed');
    return new BN(this.v / o.v);
  }
  mod(o: BN): BN {
    if (o.v === 0n) throw new Error('Assertion failed');
    return new BN(this.v % o.v);
  }
  umod(o: BN): BN {
    const m = this.mod(o).v;
    return new BN(m < 0n ? m + abs(o.v) : m);
  }
  divmod(o: BN): { div: BN; mod: BN } { return { div: this.div(o), mod: this.mod(o) }; }
  divRound(o: BN): BN {
    const { div, mod } = this.divmod(o);
    if (mod.v === 0n) return div;
    const up = abs(mod.v) * 2n >= abs(o.v);
    return up ? new BN(div.v + (this.v < 0n !== o.v < 0n ? -1n : 1n)) : div;
  }
  addn(n: number): BN { return new BN(this.v + num(n)); }
  iaddn(n: number): this { return this.set(this.v + num(n)); }
  subn(n: number): BN { return new BN(this.v - num(n)); }
  isubn(n: number): this { return this.set(this.v - num(n)); }
  muln(n: number): BN { return new BN(this.v * num(n)); }
  imuln(n: number): this { return this.set(this.v * num(n)); }
  divn(n: number): BN { return this.div(new BN(num(n))); }
  idivn(n: number): this { return this.set(this.v / num(n)); }
  modn(n: number): number { return Number(this.v % num(n)); }
  modrn(n: number): number { return Number(this.v % num(n)); }
  pow(o: BN): BN { return new BN(this.v ** o.v); }
  sqr(): BN { return new BN(this.v * this.v); }
  neg(): BN { return new BN(-this.v); }
  ineg(): this { return this.set(-this.v); }
  abs(): BN { return new BN(abs(this.v)); }
  isNeg(): boolean { return this.v < 0n; }
  isZero(): boolean { return this.v === 0n; }
  isEven(): boolean { return (this.v & 1n) === 0n; }
  isOdd(): boolean { return !this.isEven(); }
  cmp(o: BN): -1 | 0 | 1 { return this.v < o.v ? -1 : this.v > o.v ? 1 : 0; }
  ucmp(o: BN): -1 | 0 | 1 { return this.abs().cmp(o.abs()); }
  cmpn(n: number): -1 | 0 | 1 { return this.cmp(new BN(n)); }
  eq(o: BN): boolean { return this.v === o.v; }
  eqn(n: number): boolean { return this.v === BigInt(n); }
  lt(o: BN): boolean { return this.v < o.v; }
  ltn(n: number): boolean { return this.v < BigInt(n); }
  lte(o: BN): boolean { return this.v <= o.v; }
  lten(n: number): boolean { return this.v <= BigInt(n); }
  gt(o: BN): boolean { return this.v > o.v; }
  gtn(n: number): boolean { return this.v > BigInt(n); }
  gte(o: BN): boolean { return this.v >= o.v; }
  gten(n: number): boolean { return this.v >= BigInt(n); }
  private pos(): bigint {
    if (this.v < 0n) throw new Error('Assertion failed');
    return this.v;
  }
  maskn(n: number): BN { return new BN(this.pos() & ((1n << BigInt(n)) - 1n)); }
  imaskn(n: number): this { return this.set(this.maskn(n).v); }
  ushrn(n: number): BN { return new BN((this.v < 0n ? -1n : 1n) * (abs(this.v) >> BigInt(n))); }
  iushrn(n: number): this { return this.set(this.ushrn(n).v); }
  shrn(n: number): BN { return new BN(this.pos() >> BigInt(n)); }
  ishrn(n: number): this { return this.set(this.pos() >> BigInt(n)); }
  ushln(n: number): BN { return new BN(this.v << BigInt(n)); }
  iushln(n: number): this { return this.set(this.v << BigInt(n)); }
  shln(n: number): BN { return new BN(this.pos() << BigInt(n)); }
  ishln(n: number): this { return this.set(this.pos() << BigInt(n)); }
  and(o: BN): BN { return new BN(this.pos() & o.pos()); }
  uand(o: BN): BN { return new BN(abs(this.v) & abs(o.v)); }
  or(o: BN): BN { return new BN(this.pos() | o.pos()); }
  uor(o: BN): BN { return new BN(abs(this.v) | abs(o.v)); }
  xor(o: BN): BN { return new BN(this.pos() ^ o.pos()); }
  uxor(o: BN): BN { return new BN(abs(this.v) ^ abs(o.v)); }
  testn(n: number): boolean { return ((abs(this.v) >> BigInt(n)) & 1n) === 1n; }
  setn(n: number, b: any): BN { return new BN(b ? this.v | (1n << BigInt(n)) : this.v & ~(1n << BigInt(n))); }
  bitLength(): number { return this.v === 0n ? 0 : abs(this.v).toString(2).length; }
  byteLength(): number { return Math.ceil(this.bitLength() / 8); }
  toTwos(w: number): BN {
    return this.v < 0n ? new BN(this.v + (1n << BigInt(w))) : this.clone();
  }
  fromTwos(w: number): BN {
    return this.testn(w - 1) ? new BN(this.v - (1n << BigInt(w))) : this.clone();
  }
  toNumber(): number {
    if (this.bitLength() > 53)
      throw new Error('Number can only safely store up to 53 bits');
    return Number(this.v);
  }
  toString(base: any = 10, pad = 1): string {
    const b = base === 'hex' ? 16 : base;
    let s = abs(this.v).toString(b);
    while (s.length % (pad || 1) !== 0) s = '0' + s;
    return (this.v < 0n ? '-' : '') + s;
  }
  toJSON(): string { return this.toString(16, 2); }
  toArray(endian: any = 'be', length?: number): number[] {
    const n = this.byteLength();
    const want = length || Math.max(1, n);
    if (n > want) throw new Error('byte array longer than desired length');
    const out: number[] = [];
    let v = abs(this.v);
    for (let i = 0; i < want; i++) {
      out.push(Number(v & 255n));
      v >>= 8n;
    }
    return endian === 'le' ? out : out.reverse();
  }
  toArrayLike(t: any, endian: any = 'be', length?: number): any {
    const a = this.toArray(endian, length);
    return t === Array ? a : t.from(a);
  }
  toBuffer(endian: any = 'be', length?: number): Buffer {
    return this.toArrayLike(Buffer, endian, length);
  }
}
export default BN;
