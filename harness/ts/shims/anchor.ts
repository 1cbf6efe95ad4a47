// Stand-in for the parts of @coral-xyz/anchor 0.29 the client uses: the borsh coder and the program namespaces.
import { createHash } from 'node:crypto';
import { BN } from './bn';
import { PublicKey, SystemProgram, TransactionInstruction, SYSVAR_RENT_PUBKEY, bs58decode, bs58encode } from './web3';
import { ASSOCIATED_TOKEN_PROGRAM_ID, TOKEN_PROGRAM_ID } from './spltoken';
export { BN };

const sha8 = (s: string): Buffer => createHash('sha256').update(s).digest().subarray(0, 8);
const snake = (s: string): string => s.replace(/([A-Z])/g, (m) => '_' + m.toLowerCase());
const pascal = (s: string): string => s[0].toUpperCase() + s.slice(1);
const camel = (s: string): string => s[0].toLowerCase() + s.slice(1);

const INTS: { [k: string]: [number, boolean] } = {
  u8: [1, false], i8: [1, true], u16: [2, false], i16: [2, true], u32: [4, false], i32: [4, true],
  u64: [8, false], i64: [8, true], u128: [16, false], i128: [16, true],
};

class Reader {
  constructor(public b: Buffer, public p = 0) {}
  take(n: number): Buffer {
    if (this.p + n > this.b.length) throw new RangeError('Trying to access beyond buffer length');
    this.p += n;
    return this.b.subarray(this.p - n, this.p);
  }
}

class Types {
  map = new Map<string, any>();
  constructor(idl: any) {
    for (const t of [...(idl.types ?? []), ...(idl.accounts ?? [])]) this.map.set(t.name, t.type);
  }
  def(n: string): any {
    const t = this.map.get(n);
    if (!t) throw new Error('Type not found: ' + n);
    return t;
  }
  dec(t: any, r: Reader): any {
    if (typeof t === 'string') {
      const i = INTS[t];
      if (i) {
        const b = r.take(i[0]);
        if (i[0] <= 4) return i[1] ? b.readIntLE(0, i[0]) : b.readUIntLE(0, i[0]);
        const v = new BN(b, 'le');
        return i[1] ? v.fromTwos(i[0] * 8) : v;
      }
      switch (t) {
        case 'bool': return r.take(1)[0] !== 0;
        case 'f32': return r.take(4).readFloatLE(0);
        case 'f64': return r.take(8).readDoubleLE(0);
        case 'publicKey': return new PublicKey(r.take(32));
        case 'string': return r.take(r.take(4).readUInt32LE(0)).toString('utf8');
        case 'bytes': return Buffer.from(r.take(r.take(4).readUInt32LE(0)));
      }
      throw new Error('unknown type ' + t);
    }
    if (t.array) {
      if (t.array[0] === 'u8') return Array.from(r.take(t.array[1]));
      const out: any[] = [];
      for (let i = 0; i < t.array[1]; i++) out.push(this.dec(t.array[0], r));
      return out;
    }
    if (t.vec) {
      const n = r.take(4).readUInt32LE(0);
      const out: any[] = [];
      for (let i = 0; i < n; i++) out.push(this.dec(t.vec, r));
      return out;
    }
    if (t.option) return r.take(1)[0] === 0 ? null : this.dec(t.option, r);
    if (t.defined) return this.body(this.def(t.defined), r);
    throw new Error('unknown type ' + JSON.stringify(t));
  }
  body(d: any, r: Reader): any {
    if (d.kind === 'struct') {
      const o: any = {};
      for (const f of d.fields) o[f.name] = this.dec(f.type, r);
      return o;
    }
    const v = d.variants[r.take(1)[0]];
    if (!v) throw new Error('invalid variant');
    const o: any = {};
    (v.fields ?? []).forEach((f: any, i: number) => (o[f.name ?? i] = this.dec(f.type ?? f, r)));
    return { [camel(v.name)]: o };
  }
  enc(t: any, v: any, out: Buffer[]): void {
    if (typeof t === 'string') {
      const i = INTS[t];
      if (i) {
        if (i[0] > 4 && !(v instanceof BN)) throw new TypeError('src.toArrayLike is not a function');
        if (i[0] <= 4 && typeof v !== 'number') throw new TypeError('"value" argument must be a number');
        let x = i[0] > 4 ? v.v : BigInt(v);
        const w = BigInt(i[0] * 8);
        if (x < (i[1] ? -(1n << (w - 1n)) : 0n) || x >= 1n << (i[1] ? w - 1n : w)) throw new RangeError('out of range');
        if (x < 0n) x += 1n << w;
        const b = Buffer.alloc(i[0]);
        for (let k = 0; k < i[0]; k++) b[k] = Number((x >> BigInt(8 * k)) & 255n);
        out.push(b);
        return;
      }
      switch (t) {
        case 'bool': out.push(Buffer.from([v ? 1 : 0])); return;
        case 'f32': { const b = Buffer.alloc(4); b.writeFloatLE(v); out.push(b); return; }
        case 'f64': { const b = Buffer.alloc(8); b.writeDoubleLE(v); out.push(b); return; }
        case 'publicKey': out.push(v.toBuffer()); return;
        case 'string': case 'bytes': {
          const s = Buffer.from(v, 'utf8');
          const n = Buffer.alloc(4);
          n.writeUInt32LE(s.length);
          out.push(n, s);
          return;
        }
      }
      throw new Error('unknown type ' + t);
    }
    if (t.array) {
      if (v.length !== t.array[1]) throw new RangeError('wrong array length');
      for (const x of v) this.enc(t.array[0], x, out);
    } else if (t.vec) {
      const n = Buffer.alloc(4);
      n.writeUInt32LE(v.length);
      out.push(n);
      for (const x of v) this.enc(t.vec, x, out);
    } else if (t.option) {
      if (v === null || v === undefined) out.push(Buffer.from([0]));
      else {
        out.push(Buffer.from([1]));
        this.enc(t.option, v, out);
      }
    } else if (t.defined) this.encBody(this.def(t.defined), v, out);
    else throw new Error('unknown type ' + JSON.stringify(t));
  }
  encBody(d: any, v: any, out: Buffer[]): void {
    if (d.kind === 'struct') {
      for (const f of d.fields) this.enc(f.type, v[f.name], out);
      return;
    }
    const name = Object.keys(v)[0];
    const i = d.variants.findIndex((x: any) => camel(x.name) === name);
    if (i < 0) throw new Error('unknown variant ' + name);
    out.push(Buffer.from([i]));
    (d.variants[i].fields ?? []).forEach((f: any, k: number) => this.enc(f.type ?? f, v[name][f.name ?? k], out));
  }
}

export class BorshCoder {
  accounts: any;
  types: any;
  events: any;
  instruction: any;
  constructor(idl: any) {
    const T = new Types(idl);
    const acc = (n: string): any => {
      const a = (idl.accounts ?? []).find((x: any) => x.name === n);
      if (!a) throw new Error('Unknown account: ' + n);
      return a;
    };
    const disc = (n: string): Buffer => sha8('account:' + pascal(n));
    this.accounts = {
      accountDiscriminator: disc,
      decode: (n: string, data: Buffer): any => {
        if (!disc(n).equals(Buffer.from(data).subarray(0, 8))) throw new Error('Invalid account discriminator');
        return this.accounts.decodeUnchecked(n, data);
      },
      decodeUnchecked: (n: string, data: Buffer): any => T.body(acc(n).type, new Reader(Buffer.from(data), 8)),
      size: (a: any): number => a,
    };
    const layouts = new Map<string, any>();
    for (const t of idl.types ?? []) layouts.set(t.name, { decode: (b: Buffer) => T.body(t.type, new Reader(b)) });
    this.types = {
      typeLayouts: layouts,
      decode: (n: string, b: Buffer): any => {
        const l = layouts.get(n);
        if (!l) throw new Error('Unknown type: ' + n);
        return l.decode(b);
      },
      encode: (n: string, v: any): Buffer => {
        const o: Buffer[] = [];
        T.encBody(T.def(n), v, o);
        return Buffer.concat(o);
      },
    };
    this.events = {
      decode: (log: string): any => {
        const b = Buffer.from(log, 'base64');
        const e = (idl.events ?? []).find((x: any) => sha8('event:' + x.name).equals(b.subarray(0, 8)));
        if (!e) return null;
        return { data: T.body({ kind: 'struct', fields: e.fields }, new Reader(b, 8)), name: e.name };
      },
    };
    this.instruction = {
      encode: (n: string, args: any): Buffer => {
        const ix = idl.instructions.find((x: any) => x.name === n);
        const o: Buffer[] = [sha8('global:' + snake(n))];
        for (const a of ix.args) T.enc(a.type, args[a.name], o);
        return Buffer.concat(o);
      },
    };
  }
}

export class Program<_I = any> {
  _coder: any;
  methods: any = {};
  account: any = {};
  constructor(public idl: any, public programId: PublicKey, public provider: any) {
    this.programId = new PublicKey(programId);
    this._coder = new BorshCoder(idl);
    for (const ix of idl.instructions) this.methods[ix.name] = (...args: any[]) => new Builder(this, ix, args);
    for (const a of idl.accounts ?? []) {
      const conn = (): any => this.provider.connection;
      const one = (ai: any): any => (ai ? this._coder.accounts.decode(a.name, ai.data) : null);
      const f: any = {
        fetchNullable: async (k: any) => one(await conn().getAccountInfo(new PublicKey(k))),
        fetch: async (k: any) => {
          const v = await f.fetchNullable(k);
          if (v === null) throw new Error('Account does not exist or has no data ' + k.toString());
          return v;
        },
        fetchMultiple: async (ks: any[]) => (await conn().getMultipleAccountsInfo(ks.map((k) => new PublicKey(k)))).map(one),
        coder: this._coder,
      };
      this.account[camel(a.name)] = f;
    }
  }
  get coder(): any { return this._coder; }
}

const CONST: { [k: string]: PublicKey } = {
  associatedTokenProgram: ASSOCIATED_TOKEN_PROGRAM_ID,
  rent: SYSVAR_RENT_PUBKEY,
  systemProgram: SystemProgram.programId,
  tokenProgram: TOKEN_PROGRAM_ID,
};

class Builder {
  acc: any = {};
  rem: any[] = [];
  constructor(private p: Program, private ix: any, private args: any[]) {}
  accounts(a: any): this { Object.assign(this.acc, a); return this; }
  accountsStrict(a: any): this { return this.accounts(a); }
  accountsPartial(a: any): this { return this.accounts(a); }
  remainingAccounts(r: any[]): this { this.rem = this.rem.concat(r); return this; }
  signers(_: any): this { return this; }
  preInstructions(_: any): this { return this; }
  postInstructions(_: any): this { return this; }
  async instruction(): Promise<TransactionInstruction> {
    if (this.args.length !== this.ix.args.length) throw new Error('provided too many or too few arguments to ' + this.ix.name);
    const keys: any[] = [];
    for (const a of this.ix.accounts) {
      let k = this.acc[a.name];
      const opt = a.isOptional === true;
      if (k === null && !opt) throw new Error(`Invalid accounts: ${a.name} is null`);
      if (k === undefined && a.isSigner && !opt) k = this.p.provider.wallet?.publicKey;
      if (k === undefined && CONST[a.name]) k = CONST[a.name];
      if (k === undefined && a.name === 'eventAuthority') k = PublicKey.findProgramAddressSync([Buffer.from('__event_authority')], this.p.programId)[0];
      if (k === undefined && a.name === 'program') k = this.p.programId;
      const none = k === null || (k === undefined && opt);
      if (k === undefined && !opt) throw new Error(`Invalid arguments: ${a.name} not provided.`);
      keys.push({
        pubkey: none ? this.p.programId : new PublicKey(k),
        isWritable: !none && a.isMut,
        isSigner: !none && a.isSigner,
      });
    }
    const named: any = {};
    this.ix.args.forEach((a: any, i: number) => (named[a.name] = this.args[i]));
    return new TransactionInstruction({
      keys: keys.concat(this.rem),
      programId: this.p.programId,
      data: this.p._coder.instruction.encode(this.ix.name, named),
    });
  }
}

export class AnchorProvider {
  constructor(public connection: any, public wallet: any, public opts: any = {}) {}
  get publicKey(): PublicKey { return this.wallet.publicKey; }
}
let current: any = null;
export function setProvider(p: any): void { current = p; }
export function getProvider(): any { return current; }

export const utf8 = {
  decode: (b: Uint8Array): string => new TextDecoder('utf-8').decode(b),
  encode: (s: string): Uint8Array => new TextEncoder().encode(s),
};
export const bs58 = { decode: (s: string): Buffer => Buffer.from(bs58decode(s)), encode: bs58encode };
export const base64 = {
  decode: (s: string): Buffer => Buffer.from(s, 'base64'),
  encode: (b: Uint8Array): string => Buffer.from(b).toString('base64'),
};
export const hex = {
  decode: (s: string): Buffer => Buffer.from(s.replace(/^0x/, ''), 'hex'),
  encode: (b: Uint8Array): string => '0x' + Buffer.from(b).toString('hex'),
};
export const utils = { bytes: { utf8, bs58, base64, hex } };
export class Wallet {
  constructor(public payer: any) {}
  get publicKey(): PublicKey { return this.payer.publicKey; }
}
