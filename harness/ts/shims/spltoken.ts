// Stand-in for the parts of @solana/spl-token the client uses.
import { PublicKey, SystemProgram, TransactionInstruction } from './web3';
export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export const NATIVE_MINT = new PublicKey('So11111111111111111111111111111111111111112');

export function getAssociatedTokenAddressSync(
  mint: PublicKey,
  owner: PublicKey,
  offCurve = false,
  program = TOKEN_PROGRAM_ID,
  ata = ASSOCIATED_TOKEN_PROGRAM_ID,
): PublicKey {
  if (!offCurve && !PublicKey.isOnCurve(owner.toBuffer())) throw new Error('TokenOwnerOffCurveError');
  return PublicKey.findProgramAddressSync([owner.toBuffer(), program.toBuffer(), mint.toBuffer()], ata)[0];
}
export async function getAssociatedTokenAddress(mint: PublicKey, owner: PublicKey, offCurve = false): Promise<PublicKey> {
  return getAssociatedTokenAddressSync(mint, owner, offCurve);
}
function ata(tag: number[], payer: PublicKey, account: PublicKey, owner: PublicKey, mint: PublicKey): TransactionInstruction {
  return new TransactionInstruction({
    keys: [
      { pubkey: payer, isSigner: true, isWritable: true },
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: owner, isSigner: false, isWritable: false },
      { pubkey: mint, isSigner: false, isWritable: false },
      { pubkey: SystemProgram.programId, isSigner: false, isWritable: false },
      { pubkey: TOKEN_PROGRAM_ID, isSigner: false, isWritable: false },
    ],
    programId: ASSOCIATED_TOKEN_PROGRAM_ID,
    data: Buffer.from(tag),
  });
}
export const createAssociatedTokenAccountIdempotentInstruction = (p: PublicKey, a: PublicKey, o: PublicKey, m: PublicKey) => ata([1], p, a, o, m);
export const createAssociatedTokenAccountInstruction = (p: PublicKey, a: PublicKey, o: PublicKey, m: PublicKey) => ata([], p, a, o, m);
export function createInitializeAccount3Instruction(account: PublicKey, mint: PublicKey, owner: PublicKey): TransactionInstruction {
  return new TransactionInstruction({
    keys: [
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: mint, isSigner: false, isWritable: false },
    ],
    programId: TOKEN_PROGRAM_ID,
    data: Buffer.concat([Buffer.from([18]), owner.toBuffer()]),
  });
}
export function createCloseAccountInstruction(account: PublicKey, dest: PublicKey, owner: PublicKey): TransactionInstruction {
  return new TransactionInstruction({
    keys: [
      { pubkey: account, isSigner: false, isWritable: true },
      { pubkey: dest, isSigner: false, isWritable: true },
      { pubkey: owner, isSigner: true, isWritable: false },
    ],
    programId: TOKEN_PROGRAM_ID,
    data: Buffer.from([9]),
  });
}
export function createSyncNativeInstruction(account: PublicKey): TransactionInstruction {
  return new TransactionInstruction({
    keys: [{ pubkey: account, isSigner: false, isWritable: true }],
    programId: TOKEN_PROGRAM_ID,
    data: Buffer.from([17]),
  });
}
