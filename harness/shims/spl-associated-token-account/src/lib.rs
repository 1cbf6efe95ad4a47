//! Stand-in for the client side of spl-associated-token-account (addresses and instructions only), without
//! the token-2022 dependency chain of the original. The program itself is emulated by the mini runtime.
use solana_program::pubkey::Pubkey;

solana_program::declare_id!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");

const TOKEN: Pubkey = solana_program::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");

pub fn get_associated_token_address(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    get_associated_token_address_with_program_id(wallet, mint, &TOKEN)
}

pub fn get_associated_token_address_with_program_id(wallet: &Pubkey, mint: &Pubkey, token_program: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[wallet.as_ref(), token_program.as_ref(), mint.as_ref()], &ID).0
}

pub mod instruction {
    use solana_program::instruction::{AccountMeta, Instruction};
    use solana_program::pubkey::Pubkey;

    fn build(funder: &Pubkey, wallet: &Pubkey, mint: &Pubkey, token_program: &Pubkey, tag: u8) -> Instruction {
        let a = super::get_associated_token_address_with_program_id(wallet, mint, token_program);
        Instruction {
            program_id: super::ID,
            accounts: vec![
                AccountMeta::new(*funder, true),
                AccountMeta::new(a, false),
                AccountMeta::new_readonly(*wallet, false),
                AccountMeta::new_readonly(*mint, false),
                AccountMeta::new_readonly(solana_program::system_program::id(), false),
                AccountMeta::new_readonly(*token_program, false),
            ],
            data: vec![tag],
        }
    }
    pub fn create_associated_token_account(f: &Pubkey, w: &Pubkey, m: &Pubkey, t: &Pubkey) -> Instruction {
        build(f, w, m, t, 0)
    }
    pub fn create_associated_token_account_idempotent(f: &Pubkey, w: &Pubkey, m: &Pubkey, t: &Pubkey) -> Instruction {
        build(f, w, m, t, 1)
    }
}
