//! The client's simulation of a taking order, called directly.
use crate::book;
use crate::quotes::Sim;
use crate::world::World;
use openbook_v2::accounts_zerocopy::KeyedAccount;
use openbook_v2::state::{Orderbook, Side};
use solana_sdk::account::Account;
use solana_sdk::pubkey::Pubkey;
use std::cell::RefCell;

pub fn query(w: &World, side: usize, max_base: i64, max_quote: i64) -> Result<Sim, String> {
    let market = *w.market();
    let acc = |k: Option<Pubkey>| {
        k.map(|key| {
            let a = w.bank.get(&key).unwrap();
            KeyedAccount { key, account: Account { lamports: a.lamports, data: a.data().to_vec(), owner: a.owner, ..Account::default() } }
        })
    };
    let (a, b) = (acc(w.k.oracle[0]), acc(w.k.oracle[1]));
    let price = market.oracle_price(a.as_ref(), b.as_ref(), w.bank.clock.slot).map_err(|e| format!("{:?}", e))?;
    let (bids, asks) = (RefCell::new(*w.bookside(0)), RefCell::new(*w.bookside(1)));
    let book = Orderbook { bids: bids.borrow_mut(), asks: asks.borrow_mut() };
    let s = if side == 0 { Side::Bid } else { Side::Ask };
    let x = book::amounts_from_book(book, s, max_base, max_quote, &market, price, w.bank.clock.unix_timestamp as u64).map_err(|e| format!("{:?}", e))?;
    Ok(Sim { base: x.total_base_taken_native, quote: x.total_quote_taken_native, rebates: x.fee, short: x.not_enough_liquidity })
}
