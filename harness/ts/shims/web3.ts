// Stand-in for the parts of @solana/web3.js the client uses.
import { createHash } from 'node:crypto';

const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function bs58encode(b: Uint8Array): string {
  let v = 0n;
  for (const x of b) v = (v << 8n) | BigInt(x);
  let s = '';
  while (v > 0n) {
    s = A[Number(v % 58n)] + s;
    v /= 58n;
  }
  for (const x of b) {
    if (x !== 0) break;
    s = '1' + s;
  }
  return s;
}
export function bs58decode(s: string): Uint8Array {
  let v = 0n;
  for (const c of s) {
    const i = A.indexOf(c);
    if (i < 0) throw new Error('Non-base58 character');
    v = v * 58n + BigInt(i);
  }
  const out: number[] = [];
  while (v > 0n) {
    out.push(Number(v & 255n));
    v >>= 8n;
  }
  for (const c of s) {
    if (c !== '1') break;
    out.push(0);
  }
  return Uint8Array.from(out.reverse());
}

const P = (1n << 255n) - 19n;
const D = 37095705934669439343138083508754565189542113879843219016388785533085940283555n;
function pw(b: bigint, e: bigint): bigint {
  let r = 1n;
  b %= P;
  while (e > 0n) {
    if (e & 1n) r = (r * b) % P;
    b = (b * b) % P;
    e >>= 1n;
  }
  return r;
}
function onCurve(b: Uint8Array): boolean {
  let y = 0n;
  for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(b[i]);
  y &= (1n << 255n) - 1n;
  y %= P;
  const y2 = (y * y) % P;
  const u = (y2 - 1n + P) % P;
  const v = (D * y2 + 1n) % P;
  const x2 = (u * pw(v, P - 2n)) % P;
  return x2 === 0n || pw(x2, (P - 1n) / 2n) === 1n;
}

const cache = new Map<string, [PublicKey, number]>();

export class PublicKey {
  private b: Buffer;
  static default: PublicKey;
  constructor(x: any) {
    if (x instanceof PublicKey) this.b = Buffer.from(x.b);
    else if (typeof x === 'string') {
      const d = bs58decode(x);
      if (d.length !== 32) throw new Error('Invalid public key input');
      this.b = Buffer.from(d);
    } else if (typeof x === 'number') {
      this.b = Buffer.alloc(32);
      this.b[31] = x;
    } else if (x && typeof x.length === 'number') {
      if (x.length > 32) throw new Error('Invalid public key input');
      this.b = Buffer.concat([Buffer.alloc(32 - x.length), Buffer.from(x)]);
    } else throw new Error('Invalid public key input');
  }
  equals(o: PublicKey): boolean { return this.b.equals(o.b); }
  toBase58(): string { return bs58encode(this.b); }
  toString(): string { return this.toBase58(); }
  toJSON(): string { return this.toBase58(); }
  toBuffer(): Buffer { return Buffer.from(this.b); }
  toBytes(): Uint8Array { return new Uint8Array(this.b); }
  static isOnCurve(x: any): boolean { return onCurve(new PublicKey(x).b); }
  static createProgramAddressSync(seeds: Uint8Array[], program: PublicKey): PublicKey {
    const h = createHash('sha256');
    for (const s of seeds) {
      if (s.length > 32) throw new TypeError('Max seed length exceeded');
      h.update(s);
    }
    h.update(program.b);
    h.update('ProgramDerivedAddress');
    const d = h.digest();
    if (onCurve(d)) throw new Error('Invalid seeds, address must fall off the curve');
    return new PublicKey(d);
  }
  static async createProgramAddress(seeds: Uint8Array[], program: PublicKey): Promise<PublicKey> {
    return PublicKey.createProgramAddressSync(seeds, program);
  }
  static findProgramAddressSync(seeds: Uint8Array[], program: PublicKey): [PublicKey, number] {
    const k = seeds.map((s) => Buffer.from(s).toString('hex')).join('.') + '/' + program.toBase58();
    const hit = cache.get(k);
    if (hit) return [new PublicKey(hit[0]), hit[1]];
    for (let n = 255; n > 0; n--) {
      try {
        const a = PublicKey.createProgramAddressSync([...seeds, Buffer.from([n])], program);
        if (cache.size > 20000) cache.clear();
        cache.set(k, [a, n]);
        return [new PublicKey(a), n];
      } catch (e) {
        if (e instanceof TypeError) throw e;
      }
    }
    throw new Error('Unable to find a viable program address nonce');
  }
  static async findProgramAddress(seeds: Uint8Array[], program: PublicKey): Promise<[PublicKey, number]> {
    return PublicKey.findProgramAddressSync(seeds, program);
  }
  static unique(): PublicKey { return Keypair.generate().publicKey; }
}
PublicKey.default = new PublicKey(Buffer.alloc(32));

let counter = 0;
export class Keypair {
  private k: PublicKey;
  secretKey = new Uint8Array(64);
  constructor(k?: any) {
    this.k = k instanceof PublicKey ? k : new PublicKey(createHash('sha256').update('keypair ' + counter++).digest());
  }
  get publicKey(): PublicKey { return new PublicKey(this.k); }
  static generate(): Keypair { return new Keypair(); }
  static restart(): void { counter = 0; }
}
export type Signer = { publicKey: PublicKey; secretKey: Uint8Array };
export type AccountMeta = { pubkey: PublicKey; isSigner: boolean; isWritable: boolean };

export class TransactionInstruction {
  keys: AccountMeta[];
  programId: PublicKey;
  data: Buffer;
  constructor(o: { keys: AccountMeta[]; programId: PublicKey; data?: Buffer }) {
    this.keys = o.keys;
    this.programId = o.programId;
    this.data = o.data ?? Buffer.alloc(0);
  }
}

const le = (n: bigint, w: number): Buffer => {
  const b = Buffer.alloc(w);
  for (let i = 0; i < w; i++) b[i] = Number((n >> BigInt(8 * i)) & 255n);
  return b;
};

export class SystemProgram {
  static programId = new PublicKey('11111111111111111111111111111111');
  static createAccount(o: any): TransactionInstruction {
    return new TransactionInstruction({
      keys: [
        { pubkey: o.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: o.newAccountPubkey, isSigner: true, isWritable: true },
      ],
      programId: SystemProgram.programId,
      data: Buffer.concat([le(0n, 4), le(BigInt(o.lamports), 8), le(BigInt(o.space), 8), o.programId.toBuffer()]),
    });
  }
  static transfer(o: any): TransactionInstruction {
    return new TransactionInstruction({
      keys: [
        { pubkey: o.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: o.toPubkey, isSigner: false, isWritable: true },
      ],
      programId: SystemProgram.programId,
      data: Buffer.concat([le(2n, 4), le(BigInt(o.lamports), 8)]),
    });
  }
}

export class ComputeBudgetProgram {
  static programId = new PublicKey('ComputeBudget111111111111111111111111111111');
  static setComputeUnitPrice(o: any): TransactionInstruction {
    return new TransactionInstruction({
      keys: [],
      programId: ComputeBudgetProgram.programId,
      data: Buffer.concat([Buffer.from([3]), le(BigInt(o.microLamports), 8)]),
    });
  }
}

const required = (payer: PublicKey | undefined, ixs: TransactionInstruction[]): Set<string> => {
  const r = new Set<string>();
  if (payer) r.add(payer.toBase58());
  for (const i of ixs) for (const k of i.keys) if (k.isSigner) r.add(k.pubkey.toBase58());
  return r;
};

export class Transaction {
  instructions: TransactionInstruction[] = [];
  feePayer?: PublicKey;
  recentBlockhash?: string;
  lastValidBlockHeight?: number;
  signed: PublicKey[] = [];
  constructor(o?: any) { if (o) Object.assign(this, o); }
  add(...ixs: any[]): this {
    for (const i of ixs) this.instructions.push(...(i.instructions ?? [i]));
    return this;
  }
  partialSign(...s: Signer[]): void {
    const r = required(this.feePayer, this.instructions);
    for (const x of s) if (!r.has(x.publicKey.toBase58())) throw new Error(`unknown signer: ${x.publicKey.toString()}`);
    this.signed.push(...s.map((x) => x.publicKey));
  }
  sign(...s: Signer[]): void {
    this.signed = [];
    this.partialSign(...s);
  }
}

export class MessageV0 {
  constructor(public args: any) {}
  static compile(args: any): MessageV0 {
    return new MessageV0({ ...args, instructions: [...args.instructions], addressLookupTableAccounts: args.addressLookupTableAccounts ?? [] });
  }
  get recentBlockhash(): string { return this.args.recentBlockhash; }
  get version(): number { return 0; }
}
export class TransactionMessage {
  constructor(public args: any) {}
  compileToV0Message(addressLookupTableAccounts?: any[]): MessageV0 { return MessageV0.compile({ ...this.args, addressLookupTableAccounts }); }
}
const wire: VersionedTransaction[] = [];
export class VersionedTransaction {
  signed: PublicKey[] = [];
  constructor(public message: MessageV0) {}
  sign(s: Signer[]): void {
    const r = required(this.message.args.payerKey, this.message.args.instructions);
    for (const x of s) if (!r.has(x.publicKey.toBase58())) throw new Error(`Cannot sign with non signer key ${x.publicKey.toBase58()}`);
    this.signed.push(...s.map((x) => x.publicKey));
  }
  serialize(): Uint8Array {
    const t = new VersionedTransaction(this.message);
    t.signed = [...this.signed];
    wire.push(t);
    return Uint8Array.from(le(BigInt(wire.length - 1), 8));
  }
  static deserialize(b: Uint8Array): VersionedTransaction {
    let n = 0;
    for (let i = 7; i >= 0; i--) n = n * 256 + b[i];
    const t = new VersionedTransaction(wire[n].message);
    t.signed = [...wire[n].signed];
    return t;
  }
  static restart(): void { wire.length = 0; }
}
export class Connection {}
export class AddressLookupTableAccount {}
export class Message {}
export const LAMPORTS_PER_SOL = 1000000000;
export const SYSVAR_RENT_PUBKEY = new PublicKey('SysvarRent111111111111111111111111111111111');
