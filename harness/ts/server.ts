// Answers requests (one JSON object per line) by means of the client library. Accounts live in a table the caller fills.
import * as C from 'openbook-client';
import { BN } from './shims/bn';
import { AnchorProvider } from './shims/anchor';
import NodeWallet from './shims/nodewallet';
import { Keypair, PublicKey, TransactionInstruction, VersionedTransaction, bs58decode } from './shims/web3';
import { createInterface } from 'node:readline';

type Ai = { data: Buffer; owner: PublicKey; lamports: number; executable: boolean };
const accs = new Map<string, Ai>();
let subs: { [id: number]: [string, (ai: Ai) => void] } = {};
let subCount = 0;
let sent: any[] = [];
let history: any[] = [];

const hex = (k: any): string => k.toBuffer().toString('hex');
const pk = (h: string): PublicKey => new PublicKey(Buffer.from(h, 'hex'));
const get = (k: PublicKey): Ai | null => accs.get(hex(k)) ?? null;
const captured = (ixs: any[], signed: PublicKey[], payer: PublicKey): string => {
  sent.push({ ixs: ixs.map(show), signed: signed.map(hex), payer: hex(payer) });
  return 'signature' + sent.length;
};

class Wallet extends (NodeWallet as any) {
  constructor(k: Keypair) { super(k); }
}

function connection(direct: boolean): any {
  const c: any = {
    commitment: 'processed',
    getAccountInfo: async (k: PublicKey) => get(k),
    getMultipleAccountsInfo: async (ks: PublicKey[]) => ks.map(get),
    getMinimumBalanceForRentExemption: async (n: number) => (n + 128) * 6960,
    getLatestBlockhash: async () => ({ blockhash: 'hash', lastValidBlockHeight: 1 }),
    onAccountChange: (k: PublicKey, f: any) => {
      subs[++subCount] = [hex(k), f];
      return subCount;
    },
    removeAccountChangeListener: async (id: number) => { delete subs[id]; },
    sendRawTransaction: async (raw: any) => {
      const tx = VersionedTransaction.deserialize(raw);
      return captured(tx.message.args.instructions, tx.signed, tx.message.args.payerKey);
    },
    confirmTransaction: async () => ({ context: { slot: 1 }, value: { err: null } }),
    _rpcRequest: async (name: string, args: any[]) => {
      if (name !== 'getProgramAccounts') return { jsonrpc: '2.0', error: { message: 'unknown' }, id: '1' };
      const out: any[] = [];
      for (const [k, a] of accs) {
        if (a.owner.toBase58() !== args[0]) continue;
        const ok = (args[1].filters ?? []).every((f: any) => {
          if (f.dataSize !== undefined) return a.data.length === f.dataSize;
          const want = Buffer.from(bs58decode(f.memcmp.bytes));
          return a.data.subarray(f.memcmp.offset, f.memcmp.offset + want.length).equals(want);
        });
        if (ok)
          out.push({
            pubkey: pk(k).toBase58(),
            account: { data: [a.data.toString('base64'), 'base64'], executable: false, owner: a.owner.toBase58(), lamports: a.lamports },
          });
      }
      return { jsonrpc: '2.0', result: out, id: '1' };
    },
    getSignaturesForAddress: async () => history.map((_, i) => ({ signature: 's' + i })),
    getTransactions: async (l: string[]) => l.map((s) => history[Number(s.slice(1))]),
  };
  if (direct)
    c.banksClient = {
      getLatestBlockhash: async () => ['hash', 1],
      processTransaction: async (tx: any) => { captured(tx.instructions, [...tx.signed, tx.feePayer], tx.feePayer); },
    };
  return c;
}

function client(wallet: string, direct: boolean, referrer?: string | null): C.OpenBookV2Client {
  const conn = connection(direct);
  const kp = new Keypair(pk(wallet));
  const provider = new AnchorProvider(conn, new Wallet(kp), { commitment: 'processed' });
  return new C.OpenBookV2Client(provider as any, C.OPENBOOK_PROGRAM_ID, referrer ? { referrerWallet: pk(referrer) as any } : {});
}

// values as JSON
function show(v: any): any {
  if (v === null || v === undefined) return null;
  if (v instanceof PublicKey) return { pk: hex(v) };
  if (v instanceof BN) return { bn: v.toString() };
  if (v instanceof Keypair) return { kp: hex(v.publicKey) };
  if (v instanceof TransactionInstruction)
    return { ix: { p: hex(v.programId), k: v.keys.map((k: any) => [hex(k.pubkey), !!k.isSigner, !!k.isWritable]), d: Buffer.from(v.data).toString('hex') } };
  if (Array.isArray(v)) return v.map(show);
  if (typeof v === 'object') {
    const o: any = {};
    for (const k of Object.keys(v)) o[k] = show(v[k]);
    return o;
  }
  return v;
}
function take(v: any, c: C.OpenBookV2Client): any {
  if (v === null || typeof v !== 'object') return v;
  if (Array.isArray(v)) return v.map((x) => take(x, c));
  if ('pk' in v) return pk(v.pk);
  if ('bn' in v) return new BN(v.bn);
  if ('kp' in v) return new Keypair(pk(v.kp));
  if ('none' in v) return undefined;
  if ('acc' in v) return (c.program as any).coder.accounts.decode(v.acc, get(pk(v.key))!.data);
  const o: any = {};
  for (const k of Object.keys(v)) o[k] = take(v[k], c);
  return o;
}

async function attempt(f: () => any): Promise<any> {
  try {
    return { ok: await f() };
  } catch (e) {
    return { err: String((e as any)?.message ?? e) };
  }
}

const order = (o: C.Order): any => ({
  price: o.priceLots.toString(), size: o.sizeLots.toString(), seq: o.seqNum.toString(), key: o.leafNode.key.toString(),
  owner: hex(o.leafNode.owner), cid: o.leafNode.clientOrderId.toString(), expired: o.isExpired, ui: [o.price, o.size],
  bid: !!o.side.bid, pegged: o.isOraclePegged, slot: o.leafNode.ownerSlot,
});

async function bookView(b: C.BookSide, depth: number): Promise<any> {
  return {
    fixed: [...b.fixedItems()].map(order),
    items: await attempt(() => [...b.items()].map(order)),
    best: await attempt(() => { const o = b.best(); return o ? order(o) : null; }),
    l2: await attempt(() => b.getL2(depth).map(([p, s, pl, sl]) => [p, s, pl.toString(), sl.toString()])),
  };
}

const eventView = (e: any): any => show(e);

async function marketView(m: C.Market, q: any): Promise<any> {
  m.bids!.clusterTime = new BN(q.now) as any;
  m.asks!.clusterTime = new BN(q.now) as any;
  return {
    bids: await bookView(m.bids!, q.depth),
    asks: await bookView(m.asks!, q.depth),
    events: [...m.eventHeap!.parsedEvents()].map(eventView),
    minOrderSize: m.minOrderSize.toNumber(),
    tickSize: m.tickSize.toNumber(),
    lots: [(m.account as any).baseLotSize.toString(), (m.account as any).quoteLotSize.toString()],
    name: C.nameToString((m.account as any).name),
    pretty: await attempt(() => m.toPrettyString()),
  };
}

async function ooView(o: C.OpenOrders): Promise<any> {
  return {
    key: hex(o.pubkey),
    items: await attempt(() => [...o.items()].map(order)),
    balance: o.getBalanceNative().map((x: any) => x.toString()),
    native: [o.getBaseBalanceNative().toString(), o.getQuoteBalanceNative().toString()],
    ui: [o.getBaseBalanceUi(), o.getQuoteBalanceUi()],
    pretty: await attempt(() => o.toPrettyString()),
  };
}

async function view(q: any): Promise<any> {
  const c = client(q.wallet, false);
  const mk = pk(q.market);
  const out: any = {};
  const m = await C.Market.load(c, mk as any);
  await m.loadOrderBook();
  await m.loadEventHeap();
  out.market = await marketView(m, q);
  // the same book by way of the library's account fetcher
  for (const [n, side, key] of [['bids', C.SideUtils.Bid, (m.account as any).bids], ['asks', C.SideUtils.Ask, (m.account as any).asks]] as any) {
    const acc = await (c.program as any).account.bookSide.fetch(key);
    const b = new C.BookSide(m, key, acc, side);
    b.clusterTime = new BN(q.now) as any;
    out['fetched_' + n] = [...b.fixedItems()].map(order);
  }
  out.oos = [];
  for (const k of q.oos) {
    const o = await C.OpenOrders.load(pk(k) as any, m);
    const v = await ooView(o);
    o.market.eventHeap = m.eventHeap;
    out.oos.push(v);
  }
  out.reloaded = [];
  for (const k of q.oos) {
    const o = await C.OpenOrders.load(pk(k) as any, undefined, c);
    await o.reload();
    out.reloaded.push({ ...(await ooView(o)) });
  }
  out.owners = [];
  for (const k of q.owners) {
    const u = pk(k) as any;
    const ix = await C.OpenOrdersIndexer.loadNullable(c, u);
    const one = await C.OpenOrders.loadNullableForMarketAndOwner(m, u);
    out.owners.push({
      indexer: hex(c.findOpenOrdersIndexer(u)),
      all: (await c.findAllOpenOrders(u)).map(hex),
      market: (await c.findOpenOrdersForMarket(u, mk as any)).map(hex),
      loaded: ix === null ? null : await attempt(async () => (await ix.loadAllOpenOrders()).map((o) => [hex(o.pubkey), hex(o.market.pubkey), [...o.market.bids!.fixedItems()].length, [...o.market.asks!.fixedItems()].length])),
      one: one && hex(one.pubkey),
      at: q.indices.map((n: number) => hex(c.findOpenOrderAtIndex(u, new BN(n) as any))),
    });
  }
  out.consume = { accounts: (await c.getAccountsToConsume(m.account)).map(hex), slots: [] };
  for (const k of q.oos) out.consume.slots.push((await c.getSlotsToConsume(pk(k) as any, m.account)).map((x: any) => Number(x.toString())));
  return out;
}

// everything loaded beforehand and then kept current by the watcher
let watched: any = null;
async function watch(q: any): Promise<any> {
  const c = client(q.wallet, false);
  const m = await C.Market.load(c, pk(q.market) as any);
  await m.loadOrderBook();
  await m.loadEventHeap();
  const w = new C.Watcher(c.connection as any);
  w.addMarket(m);
  const oos: C.OpenOrders[] = [];
  for (const k of q.oos) {
    const o = await C.OpenOrders.load(pk(k) as any, m);
    w.addOpenOrders(o);
    oos.push(o);
  }
  watched = { m, w, oos };
  return null;
}
async function watchView(q: any): Promise<any> {
  const { m, w, oos } = watched;
  const failed: string[] = [];
  for (const k of q.changed)
    for (const [key, f] of Object.values(subs))
      if (key === k) {
        try {
          f(accs.get(k)!);
        } catch (e) {
          failed.push(String((e as any)?.message ?? e));
        }
      }
  const out: any = { market: await marketView(m, q), oos: [], failed };
  for (const o of oos) out.oos.push(await ooView(o));
  w.clear();
  out.left = Object.keys(subs).length;
  return out;
}

function convert(q: any): any {
  const m: any = {
    baseDecimals: q.baseDecimals, quoteDecimals: q.quoteDecimals, baseLotSize: new BN(q.baseLotSize), quoteLotSize: new BN(q.quoteLotSize),
    makerFee: new BN(q.makerFee),
  };
  const M = new C.Market(null as any, PublicKey.default as any, m);
  const b = (x: string): any => new BN(x);
  const s = (f: () => any): string => {
    try {
      return f().toString();
    } catch (e) {
      return String(e);
    }
  };
  return q.values.map((v: string) => ({
    cls: [M.baseLotsToUi(b(v)), M.quoteLotsToUi(b(v)), M.priceLotsToUi(b(v)), M.baseNativeToUi(b(v)), M.quoteNativeToUi(b(v))],
    fun: [C.baseLotsToUi(m, b(v)), C.quoteLotsToUi(m, b(v)), C.priceLotsToUi(m, b(v))],
    back: [s(() => M.baseUiToLots(M.baseLotsToUi(b(v)))), s(() => M.quoteUiToLots(M.quoteLotsToUi(b(v)))), s(() => M.priceUiToLots(M.priceLotsToUi(b(v))))],
    back_fun: [s(() => C.uiBaseToLots(m, C.baseLotsToUi(m, b(v)))), s(() => C.uiQuoteToLots(m, C.quoteLotsToUi(m, b(v)))), s(() => C.uiPriceToLots(m, C.priceLotsToUi(m, b(v))))],
    native: s(() => C.priceLotsToNative(m, b(v))),
    fee: s(() => M.makerFeeFloor(b(v))),
    misc: [C.priceNativeToUi(m, Number(v)), C.toUiDecimals(Number(v), q.baseDecimals)],
  }));
}

async function hi(q: any): Promise<any> {
  const c = client(q.wallet, q.direct, q.referrer);
  sent = [];
  const m = await C.Market.load(c, pk(q.market) as any);
  if (q.book) await m.loadOrderBook();
  const o = await C.OpenOrders.load(pk(q.oo) as any, m);
  if (q.delegate) o.setDelegate(new Keypair(pk(q.delegate)) as any);
  const args = take(q.args, c);
  const r = await attempt(async () => show(await (o as any)[q.fn](...args)));
  return { r, sent };
}

async function call(q: any): Promise<any> {
  const c = client(q.wallet, q.direct ?? true);
  sent = [];
  const r = await attempt(async () => show(await (c as any)[q.fn](...take(q.args, c))));
  return { r, sent };
}

async function markets(q: any): Promise<any> {
  const conn = connection(false);
  const provider = new AnchorProvider(conn, new Wallet(new Keypair(pk(q.wallet))), {});
  history = q.txs.map((t: any) => t && ({
    blockTime: t.time,
    meta: { innerInstructions: t.inner },
    transaction: { message: { staticAccountKeys: t.keys.map(pk) } },
  }));
  return await attempt(async () => await C.findAllMarkets(conn, C.OPENBOOK_PROGRAM_ID, provider as any));
}

async function byMints(q: any): Promise<any> {
  return await attempt(async () =>
    (await C.findAccountsByMints(connection(false), pk(q.base) as any, pk(q.quote) as any, C.OPENBOOK_PROGRAM_ID)).map((x) => [hex(x.publicKey), x.accountInfo.data.length]),
  );
}

// one transaction, and everything that is asked of the node and the wallet for it
async function send(q: any): Promise<any> {
  const events: any[] = [];
  const kp = new Keypair(pk(q.wallet));
  const wallets: any = {
    node: () => new Wallet(kp),
    plain: () => new (NodeWallet as any)(kp),
    // another copy of the library's wallet, of the age that knows no versioned transactions
    named: () =>
      new { ['NodeWallet']: class { constructor(public payer: any) {} get publicKey() { return this.payer.publicKey; } async signTransaction(tx: any) { tx.partialSign(this.payer); return tx; } } }['NodeWallet'](kp),
    browser: () => ({
      publicKey: kp.publicKey,
      signTransaction: async (tx: any) => {
        events.push(['wallet', tx.signed.map(hex)]);
        if (q.refuse) throw new Error('User rejected the request');
        const t = VersionedTransaction.deserialize(tx.serialize());
        t.sign([kp as any]);
        return t;
      },
    }),
  };
  const conn: any = {
    commitment: 'processed',
    getLatestBlockhash: async (c: any) => {
      events.push(['blockhash', typeof c === 'string' ? c : c?.commitment ?? null]);
      return { blockhash: 'latest', lastValidBlockHeight: 77 };
    },
    sendRawTransaction: async (raw: any) => {
      const tx = VersionedTransaction.deserialize(raw);
      const a = tx.message.args;
      events.push(['send', { ixs: a.instructions.map(show), signed: tx.signed.map(hex), payer: hex(a.payerKey), hash: a.recentBlockhash, tables: a.addressLookupTableAccounts.map((t: any) => t.name) }]);
      if (q.fails === 'send') throw new Error('node is behind');
      return 'sig' + events.length;
    },
    confirmTransaction: async (s: any, c: any) => {
      events.push(['confirm', typeof s === 'string' ? { signature: s } : s, c ?? null]);
      if (q.fails === 'confirm') throw new Error('block height exceeded');
      return { context: { slot: 5 }, value: { err: q.fails === 'tx' ? { InstructionError: [0, 'Custom'] } : q.fails === 'word' ? 'AccountNotFound' : null } };
    },
  };
  if (q.banks)
    conn.banksClient = {
      getLatestBlockhash: async () => ['latest', 77],
      processTransaction: async (tx: any) => {
        events.push(['send', { ixs: tx.instructions.map(show), signed: [...tx.signed, tx.feePayer].map(hex), payer: hex(tx.feePayer), hash: tx.recentBlockhash, tables: [] }]);
        if (q.fails) throw new Error('transaction failed');
      },
    };
  const callback = (name: string) => (x: any) => {
    events.push(['callback', name, x.txid]);
    if (q.throws) throw new Error('callback');
  };
  const copts: any = {};
  if (q.client.fee !== undefined) copts.prioritizationFee = q.client.fee;
  if (q.client.commitment) copts.txConfirmationCommitment = q.client.commitment;
  if (q.client.callback) copts.postSendTxCallback = callback('client');
  const provider = new AnchorProvider(conn, wallets[q.kind](), q.provider);
  const early = q.late ? new AnchorProvider({} as any, new Wallet(new Keypair(pk('fe'.repeat(32)))), q.provider) : provider;
  const c = new C.OpenBookV2Client(early as any, C.OPENBOOK_PROGRAM_ID, copts);
  if (q.late) c.setProvider(provider as any);
  const ixs = q.ixs.map((i: any) => new TransactionInstruction({ programId: pk(i.p), keys: i.k.map((m: any) => ({ pubkey: pk(m[0]), isSigner: m[1], isWritable: m[2] })), data: Buffer.from(i.d, 'hex') }));
  const opts: any = {};
  if (q.opts.signers) opts.additionalSigners = q.opts.signers.map((k: string) => new Keypair(pk(k)));
  if (q.opts.tables) opts.alts = q.opts.tables.map((name: string) => ({ name }));
  if (q.opts.fee !== undefined) opts.prioritizationFee = q.opts.fee;
  if (q.opts.hash) opts.latestBlockhash = q.opts.hash;
  if (q.opts.preflight) opts.preflightCommitment = q.opts.preflight;
  if (q.opts.commitment) opts.txConfirmationCommitment = q.opts.commitment;
  if (q.opts.callback !== undefined) opts.postSendTxCallback = q.opts.callback ? callback('call') : null;
  let r: any;
  try {
    r = { ok: await (q.bare ? c.sendAndConfirmTransaction(ixs as any) : c.sendAndConfirmTransaction(ixs as any, opts)) };
  } catch (e) {
    r = { err: String((e as any)?.message ?? e), txid: (e as any)?.txid ?? null };
  }
  return { r, events, left: ixs.length };
}

const ops: any = { send, view, watch, watchView, convert, hi, call, markets, byMints };

async function main(): Promise<void> {
  for await (const line of createInterface({ input: process.stdin })) {
    const q = JSON.parse(line);
    if (q.reset) {
      accs.clear();
      subs = {};
      watched = null;
      (Keypair as any).restart();
      VersionedTransaction.restart();
    }
    for (const [k, owner, lamports, data] of q.put ?? []) {
      if (owner === null) accs.delete(k);
      else accs.set(k, { data: Buffer.from(data, 'base64'), owner: pk(owner), lamports, executable: false });
    }
    const r = await attempt(() => ops[q.t](q));
    process.stdout.write(JSON.stringify(r) + '\n');
  }
}
console.log = console.warn = console.error = () => {};
void main();
