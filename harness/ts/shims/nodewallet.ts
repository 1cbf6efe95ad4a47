export default class NodeWallet {
  constructor(public payer: any) {}
  get publicKey() {
    return this.payer.publicKey;
  }
}
