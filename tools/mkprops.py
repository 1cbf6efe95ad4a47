#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts are maintained here)."""
import json, os
P = []
B = "programs/openbook-v2/src/"
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook="none"):
    a = {"files": [f if f.startswith(("lib/", "ts/", "idl/")) else B + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["account state and token balances after every instruction, seen from outside the program"],
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Vaults always hold exactly what the market owes",
  "After every instruction, the base and quote vaults of a market hold exactly the deposits the market has on record, and that record equals exactly the sum of everybody's free balances, the funds locked behind resting orders and not yet processed trades, locked maker fees, unclaimed referral rebates and uncollected fees. No instruction creates, loses or double counts a single native token unit for any participant.",
  ["histories", "configurations", "inputs"],
  "every finite history of instructions by any number of users, on every market configuration (lot sizes, positive/zero/negative maker fees, oracles, admins), at every point between instructions",
  "The existing tests run a few fixed scenarios with one fee configuration each and assert single balances; conservation has to hold after every step of every interleaving of orders, fills, cancels, cranks and settlements, including rounding of fees for all amounts.",
  ["state/orderbook/book.rs", "state/open_orders_account.rs", "instructions/place_order.rs", "instructions/place_take_order.rs", "instructions/cancel_all_and_place_orders.rs", "instructions/settle_funds.rs", "instructions/deposit.rs", "instructions/sweep_fees.rs", "instructions/consume_events.rs"],
  [("matching and accounting of an incoming order", B+"state/orderbook/book.rs:new_order"),
   ("maker side settlement", B+"state/open_orders_account.rs:execute_maker"),
   ("release of locked funds", B+"state/open_orders_account.rs:cancel_order"),
   ("withdrawals", B+"instructions/settle_funds.rs")],
  [("deposit totals", "tokens the market believes its vaults hold", B+"state/market.rs:Market"),
   ("position", "free and locked funds of one trading account", B+"state/open_orders_account.rs:Position")])

p("C02", "Everyone can always get all their money out",
  "From every reachable state, cranking the outstanding events, cancelling or pruning the orders, settling every trading account and sweeping the fees all succeed and pay out every token in the vaults to those it belongs to. Afterwards each trading account, its index and (once expired) the market can be closed and the rent is returned.",
  ["histories", "configurations"],
  "every reachable state, every order in which users leave, both before and after the market has expired",
  "Tests close one freshly used account or market on a hand written path; that no history leaves stuck dust, an unprocessable event or an uncloseable account is a statement over all histories.",
  ["instructions/settle_funds.rs", "instructions/settle_funds_expired.rs", "instructions/prune_orders.rs", "instructions/close_market.rs", "instructions/close_open_orders_account.rs", "instructions/consume_events.rs", "instructions/sweep_fees.rs", "state/open_orders_account.rs"],
  [("settlement of free funds and fee round-off", B+"instructions/settle_funds.rs"),
   ("emptiness tests before closing", B+"state/market.rs:is_empty, state/open_orders_account.rs:Position::is_empty"),
   ("pruning", B+"instructions/prune_orders.rs")])

p("C03", "Price-time priority of matching",
  "An incoming order trades against the opposing orders strictly in order of best current price first and, at equal price, oldest first, each trade at the resting order's current price. It skips no live order that ranks ahead of one it trades with, and stops only when its size, funds, price limit or match limit is used up.",
  ["histories", "inputs", "configurations"],
  "every book content (fixed and pegged, expired, self-owned), every oracle price, every incoming order",
  "The tests match against one to a few resting orders; the order over a book mixing both order trees, equal prices, expiring entries and partial fills is a property of all books.",
  ["state/orderbook/book.rs", "state/orderbook/bookside_iterator.rs", "state/orderbook/ordertree_iterator.rs", "state/orderbook/nodes.rs", "state/orderbook/ordertree.rs"],
  [("matching loop", B+"state/orderbook/book.rs:new_order"), ("merge of fixed and pegged orders", B+"state/orderbook/bookside_iterator.rs"), ("sort key", B+"state/orderbook/nodes.rs:new_node_key")])

p("C04", "An order never exceeds the limits its sender set",
  "No order trades at a price worse than its limit, trades plus posts more base than its maximum, costs the buyer more quote than its maximum with all taker and maker fees included, or matches more resting orders than its match limit. A seller's wallet and free balance never lose more base than what is traded and posted, and nothing is charged for an order that neither trades nor posts.",
  ["inputs", "histories", "configurations"],
  "every order of every type and side, sizes from zero to the representable maximum, every fee and lot configuration, every book",
  "Fee rounding against lot rounding decides whether the cap is kept; tests use round numbers where both coincide.",
  ["state/orderbook/book.rs", "instructions/place_order.rs", "instructions/place_take_order.rs", "instructions/cancel_all_and_place_orders.rs", "state/market.rs"],
  [("quote cap net of fees", B+"state/market.rs:subtract_taker_fees"), ("remaining quote for posting", B+"state/orderbook/book.rs:new_order"), ("amount taken from the user", B+"instructions/place_order.rs")])

p("C05", "Order types do what they say",
  "Market, immediate-or-cancel and fill-or-kill orders never rest on the book; fill-or-kill trades its whole base size or changes nothing; post-only orders never trade and are dropped if they would; post-only-slide orders never trade and rest at the requested price or just behind the best opposing one; limit orders trade first and rest with what remains as far as the remaining funds allow. An order whose expiry is already past changes nothing, and a taker-only order that is not one of the three taking types is refused.",
  ["inputs", "histories", "configurations"],
  "every order type, side and parameter combination against every book and oracle state",
  "Each type has one or two example tests; interactions with funds limits, match limits, self-trades, expired and pegged orders are not enumerated.",
  ["state/orderbook/order.rs", "state/orderbook/order_type.rs", "state/orderbook/book.rs", "lib.rs"],
  [("order type to price and post target", B+"state/orderbook/order.rs"), ("post decision", B+"state/orderbook/book.rs:new_order"), ("entry points", B+"lib.rs")])

p("C06", "Fees and rebates are exact and fully accounted for",
  "Each order pays taker fees of exactly the fee rate on its non-self-traded quote value, rounded up once; each maker pays or receives exactly the maker rate on each fill, rounded down (a bid's leftover from rounding its locked fee goes to the fee recipients when it settles); self-trades carry no fee. Every unit of taker fee goes to the makers' rebates or to the referral account or fee pool, maker fees go to the referral account or fee pool, the accrued, settled and collectable fee records agree with what was charged, and orders taken without a trading account pay exactly the makers' rebates.",
  ["inputs", "histories", "configurations"],
  "all fee configurations the market accepts, all trade sizes and prices, with and without referrer, inline or cranked",
  "The tests use a handful of amounts with at most one fee setting; rounding direction and who gets the remainder must be right for all values.",
  ["state/market.rs", "state/orderbook/book.rs", "state/open_orders_account.rs", "instructions/settle_funds.rs", "instructions/place_take_order.rs", "instructions/sweep_fees.rs"],
  [("fee arithmetic", B+"state/market.rs"), ("charging", B+"state/orderbook/book.rs:new_order, state/open_orders_account.rs:execute_maker"), ("distribution", B+"instructions/settle_funds.rs, instructions/sweep_fees.rs")])

p("C07", "Balances do not depend on when or how events are cranked",
  "Whether trades and removals are applied immediately through the accounts supplied with the order, later in order, in batches, by position or out of order, each is applied exactly once to exactly its maker, and once all are applied every participant's balances, volumes and orders are the same. An event whose maker account is not supplied stays queued unchanged.",
  ["schedules", "histories"],
  "every way of splitting, ordering and interleaving event processing with other instructions",
  "Tests crank immediately after one trade; the space of schedules is exponential and never sampled.",
  ["instructions/consume_events.rs", "state/orderbook/book.rs", "state/orderbook/heap.rs", "state/open_orders_account.rs"],
  [("inline processing", B+"state/orderbook/book.rs:process_fill_event, process_out_event"), ("crank", B+"instructions/consume_events.rs"), ("queue", B+"state/orderbook/heap.rs")])

p("C08", "Self-trade behaviour is respected",
  "When an order meets a resting order of the same trading account: with decrement both shrink by the match, no fee is charged and everything locked for the match returns to the owner (fee rounding remainders aside), with cancel-provide the resting order is cancelled and refunded in full and the rest matches others, with abort the whole instruction has no effect. Orders of different trading accounts are never treated as self-trades, even with the same owner.",
  ["inputs", "histories", "configurations"],
  "every mix of own and foreign resting orders, fixed and pegged, both sides, all fee settings",
  "Three example tests with own asks only and default fees.",
  ["state/orderbook/book.rs", "state/open_orders_account.rs", "instructions/settle_funds.rs"],
  [("self trade branch", B+"state/orderbook/book.rs:new_order"), ("self-trade settlement", B+"state/open_orders_account.rs:execute_maker")])

p("C09", "Pegged orders follow the oracle within their limit",
  "A pegged order trades only at the current oracle price plus its offset, never beyond its peg limit, and neither trades nor blocks others when there is no valid oracle price or its price is not representable; it becomes live again when the price returns. A pegged bid locks funds at its peg limit and gets back everything not spent, fee rounding remainders aside, when filled at a better price or cancelled.",
  ["histories", "inputs", "configurations"],
  "every sequence of oracle moves, stale and invalid oracle states, and every mix of fixed and pegged orders on both sides",
  "The tests move the oracle a few times around one pegged order; the interplay of many pegs leaving and re-entering the valid range is not sampled.",
  ["state/orderbook/bookside_iterator.rs", "state/orderbook/order.rs", "state/orderbook/book.rs", "state/open_orders_account.rs", "state/market.rs"],
  [("effective price and state of a peg", B+"state/orderbook/bookside_iterator.rs:oracle_pegged_price"), ("peg settlement", B+"state/open_orders_account.rs:execute_maker"), ("posting rules", B+"state/orderbook/book.rs:new_order")])

p("C10", "Expired orders never trade and are refunded in full",
  "An order with a time limit is tradeable strictly before its expiry time and never at or after it; expiry more than 65,535 seconds ahead is shortened to that. An expired order dropped from the book by somebody else's order gives its owner back exactly what it locked, at most once, and at most five are dropped from the opposing side by one order.",
  ["histories", "inputs", "schedules"],
  "every clock sequence and expiry combination around the boundary second, every crank schedule",
  "One test with one expiry; boundary seconds, the drop limit and the own-side clean-up are not explored.",
  ["state/orderbook/order.rs", "state/orderbook/nodes.rs", "state/orderbook/book.rs", "state/orderbook/ordertree.rs", "state/orderbook/bookside.rs"],
  [("time in force", B+"state/orderbook/order.rs:tif_from_expiry"), ("expiry test", B+"state/orderbook/nodes.rs:is_expired"), ("dropping", B+"state/orderbook/book.rs:new_order, state/orderbook/ordertree.rs:remove_one_expired")])

p("C11", "Cancelling returns exactly what the order still locks",
  "Cancelling by order id, by client id, all orders, or one side up to a count removes exactly the selected orders of that trading account, nothing else, and credits the owner with exactly the funds and maker fees locked for the unfilled quantity. Orders already taken off the book keep their pending result and are not refunded a second time.",
  ["histories", "inputs"],
  "every set of open orders with duplicate client ids, partial fills, pending events, both sides and both order trees",
  "Tests cancel one or two orders; selection by filter with limit and interplay with pending events is not covered.",
  ["instructions/cancel_order.rs", "instructions/cancel_order_by_client_order_id.rs", "instructions/cancel_all_orders.rs", "state/orderbook/book.rs", "state/open_orders_account.rs"],
  [("selection", B+"state/orderbook/book.rs:cancel_all_orders, cancel_order"), ("refund", B+"state/open_orders_account.rs:cancel_order")])

p("C12", "Only authorised signers can act",
  "Orders can be placed, edited or cancelled only with the signature of the trading account's owner or current delegate, and funds settled only with such a signature (a delegate only to the owner's own token accounts); only the owner can change the delegate or close the account. Fee collection, market expiry, pruning, expired settlement and closing require the respective market admin's signature, and where a market requires an order or crank admin, orders respectively cranks fail without that admin's signature.",
  ["inputs", "histories", "configurations"],
  "every instruction in every reachable state with every other signer, missing signature or exchanged key, for all admin configurations",
  "The tests check a few negative cases; the matrix of instruction, role and substitute is large and state dependent (delegates come and go).",
  ["accounts_ix/place_order.rs", "accounts_ix/cancel_order.rs", "accounts_ix/settle_funds.rs", "accounts_ix/settle_funds_expired.rs", "accounts_ix/sweep_fees.rs", "accounts_ix/close_market.rs", "accounts_ix/consume_events.rs", "accounts_ix/set_delegate.rs", "accounts_ix/prune_orders.rs", "accounts_ix/set_market_expired.rs", "state/open_orders_account.rs"],
  [("account constraints", B+"accounts_ix"), ("owner or delegate", B+"state/open_orders_account.rs:is_owner_or_delegate, is_settle_destination_allowed")])

p("C13", "Foreign or forged accounts are refused",
  "Every instruction fails without effect when any account of the market (book sides, event queue, vaults, authority, oracles), the trading account or the token accounts is replaced by one of another market, another kind, another mint or a look-alike owned by another program. The only accounts a caller may choose freely are their own token accounts, payers, rent and fee destinations and the extra maker accounts, and passing wrong extra accounts never changes anybody's balance.",
  ["inputs", "configurations", "histories"],
  "every instruction, every account position, every substitute account existing in a world of several markets, users and forgeries",
  "Negative tests exist for a few positions only.",
  ["accounts_ix/place_order.rs", "accounts_ix/place_take_order.rs", "accounts_ix/cancel_all_and_place_orders.rs", "accounts_ix/cancel_order.rs", "accounts_ix/deposit.rs", "accounts_ix/settle_funds.rs", "accounts_ix/consume_events.rs", "accounts_ix/close_market.rs", "accounts_ix/sweep_fees.rs", "accounts_ix/create_market.rs", "instructions/place_order.rs"],
  [("has_one and key constraints", B+"accounts_ix"), ("vault by side", B+"state/market.rs:get_vault_by_side")])

p("C14", "The order tree is an exact sorted map",
  "Under every sequence of insertions and removals (by id, worst, expired) up to full capacity, each side of the book contains exactly the orders inserted and not removed, lists them in strict price-time order, finds the worst and the earliest expiring order correctly, and reuses all freed space. Operations on one order never alter another.",
  ["inputs", "histories"],
  "every sequence of operations over all keys including extreme prices, equal prices and full trees, fixed and pegged trees sharing space",
  "The unit tests insert a few dozen random keys once and do not mix removals, expiry tracking and capacity.",
  ["state/orderbook/ordertree.rs", "state/orderbook/ordertree_iterator.rs", "state/orderbook/nodes.rs", "state/orderbook/bookside.rs"],
  [("crit-bit insertion and removal", B+"state/orderbook/ordertree.rs"), ("iteration", B+"state/orderbook/ordertree_iterator.rs"), ("keys", B+"state/orderbook/nodes.rs")],
  observe=["contents, order, worst/earliest lookups and capacity of a book side"])

p("C15", "The event queue loses, duplicates and reorders nothing",
  "Events come out of the queue in the order they went in, whatever subset is removed by position in whatever order; every position holds the same event from its insertion until its removal, and freed positions become usable again so that exactly 600 events always fit. Removing an empty or invalid position is refused without effect.",
  ["inputs", "histories"],
  "every sequence of insertions and removals, through wrap-around, empty and full states",
  "The unit tests cover single insertions/removals at the ends, not arbitrary long mixed sequences.",
  ["state/orderbook/heap.rs"],
  [("linked list over a fixed array", B+"state/orderbook/heap.rs")],
  observe=["iteration, positional access, length and capacity of the event queue"])

p("C16", "Trading accounts mirror the book",
  "At every moment each resting order belongs to exactly one used order entry of its owner's trading account with the same id, side, client id and locked price, and every used entry has a resting order or a pending event for it; the account's recorded bid and ask sizes equal what is resting plus what is pending. Order ids are never reused, an account holds at most 24 open orders, and a full book accepts a new order only if it is better priced than the worst one, which is then removed and refunded.",
  ["histories"],
  "every history and interleaving of placing, filling, cancelling, expiring, evicting and cranking",
  "A relation over the whole reachable state; tests inspect single fields after short scripts.",
  ["state/open_orders_account.rs", "state/orderbook/book.rs", "state/orderbook/bookside.rs", "state/market.rs"],
  [("slot allocation and release", B+"state/open_orders_account.rs:add_order, remove_order"), ("order id", B+"state/market.rs:gen_order_id"), ("eviction of the worst order", B+"state/orderbook/book.rs:new_order")])

p("C17", "Market lifecycle is enforced",
  "A market is created only with consistent parameters (positive lot sizes, fees within bounds with rebates covered by taker fees, expiry in the future, compatible oracles, distinct mints) and records them faithfully. Once expired no order, taker order or deposit is accepted, expiry is never undone, and it can be closed only when expired and when it holds no tokens, orders, events, fees or rebates; before expiry pruning, expired settlement and closing are refused.",
  ["inputs", "histories", "configurations"],
  "all creation parameters, all clock values around expiry, all residual states before closing",
  "Tests create a handful of markets and close one.",
  ["instructions/create_market.rs", "instructions/set_market_expired.rs", "instructions/prune_orders.rs", "instructions/close_market.rs", "instructions/settle_funds_expired.rs", "state/market.rs"],
  [("creation checks", B+"instructions/create_market.rs"), ("expiry", B+"state/market.rs:is_expired"), ("closing checks", B+"instructions/close_market.rs")])

p("C18", "Trading accounts and their index stay consistent",
  "A user's index lists exactly the user's existing trading accounts, in creation order and up to 256, numbered by a counter that only grows as long as the index exists, so a closed account's address is not handed out again by it. A trading account starts empty, can be closed only by its owner and only when it holds no funds, orders, rebates or unpaid penalties, and the index can be closed only when it lists none.",
  ["histories", "inputs"],
  "every sequence of creating, using and closing accounts by several users",
  "Tests create and close a couple of accounts once.",
  ["instructions/create_open_orders_account.rs", "instructions/close_open_orders_account.rs", "instructions/create_open_orders_indexer.rs", "instructions/close_open_orders_indexer.rs", "state/open_orders_indexer.rs", "accounts_ix/create_open_orders_account.rs", "accounts_ix/close_open_orders_account.rs"],
  [("index maintenance", B+"instructions/create_open_orders_account.rs, close_open_orders_account.rs"), ("address derivation", B+"accounts_ix/create_open_orders_account.rs")])

p("C19", "The oracle price is right or absent",
  "The price used for pegging is exactly the price published by the configured oracle (for two oracles the first divided by the second), scaled by the token decimals and converted to lots rounding down. It is absent whenever a source is older than the allowed number of slots or its (combined) uncertainty exceeds the configured limit or is undefined; an unknown source and a negative price of a real provider are rejected.",
  ["inputs", "configurations"],
  "all contents of all five supported oracle account kinds, all staleness and confidence settings, decimals and lot sizes, one or two oracles",
  "The tests load one fixture per provider and check the detected kind or one price.",
  ["state/oracle.rs", "state/market.rs", "state/raydium_internal.rs", "accounts_zerocopy.rs"],
  [("reading oracle accounts", B+"state/oracle.rs:oracle_state_unchecked"), ("staleness and confidence", B+"state/oracle.rs:OracleState"), ("combination and conversion", B+"state/market.rs:oracle_price, native_price_to_lot")])

p("C20", "Batch and edit instructions equal their parts",
  "Placing several orders at once has the same effect on book, queue and balances as placing them one by one in the given order with each capped by the funds then available, with cancelling all of the account's orders first if requested. Editing an order cancels the orders with that client id and places the new one reduced by what had already been filled, never letting the total exceed the new size.",
  ["inputs", "histories"],
  "every list of orders up to many entries, every state of the order being edited (open, partly filled, filled, gone)",
  "Tests edit once and batch two or three orders.",
  ["instructions/cancel_all_and_place_orders.rs", "instructions/edit_order.rs", "lib.rs"],
  [("batch placement", B+"instructions/cancel_all_and_place_orders.rs"), ("edit", B+"instructions/edit_order.rs"), ("argument handling", B+"lib.rs")])

p("C21", "Client-side quotes equal on-chain execution",
  "For every book, oracle state and order, the Rust client's simulation of taking liquidity, and the aggregator quotes made from it, predict exactly the base and quote amounts, the makers' rebates and whether liquidity suffices that the on-chain taking order then realises.",
  ["inputs", "histories", "configurations"],
  "all books with fixed, pegged and expired orders, all sizes, sides and fee settings",
  "No test compares the client's simulation with execution.",
  ["lib/client/src/book.rs", "lib/client/src/jup.rs", "state/orderbook/book.rs"],
  [("book walk in the client", "lib/client/src/book.rs:iterate_book"), ("quote", "lib/client/src/jup.rs:quote")],
  observe=["result of the client's simulation against the token movements of the executed instruction"])

p("C22", "The client's chain data is always that of the live fork",
  "Whatever the order in which slot and account updates, snapshots and answers of a node arrive, with forks, gaps, repeats and late messages, the client reports for each account the newest write that, as far as it was told, is on the rooted chain or on the fork of the highest slot with a known parent, never one of an abandoned fork or an older one. Dropping old data when a slot on that fork becomes final never loses the current value. The feeds pass on every account and slot notification, snapshot and answer whole and with its slot, and lookups and listings by program and kind through the client's fetcher give exactly the reported accounts.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of slot and account notifications, snapshots, refreshes and failing requests over arbitrary fork trees in which slots become final on the best fork",
  "Unit tests feed a few short hand written sequences to the innermost part; the feeds and the fetcher have none.",
  ["lib/client/src/chain_data.rs", "lib/client/src/chain_data_fetcher.rs", "lib/client/src/account_update_stream.rs", "lib/client/src/snapshot_source.rs"],
  [("slot and fork bookkeeping", "lib/client/src/chain_data.rs:update_slot"), ("account versions", "lib/client/src/chain_data.rs:update_account"),
   ("lookups, listings and refreshes", "lib/client/src/chain_data_fetcher.rs"), ("notifications", "lib/client/src/account_update_stream.rs"), ("snapshots", "lib/client/src/snapshot_source.rs")],
  observe=["account lookups of the client after each notification"])

p("C23", "Published interface matches the program",
  "Instructions encoded according to the published interface description (names, argument order and types, account order and flags) are the ones the program accepts, accounts decoded by it yield the program's own field values for every content, and error and event definitions agree. Account sizes and discriminators never change.",
  ["inputs", "programs"],
  "all argument values for all instructions and all byte contents of all account kinds",
  "No test reads the published description at all.",
  ["lib.rs", "state/market.rs", "state/open_orders_account.rs", "state/orderbook/heap.rs", "state/orderbook/nodes.rs", "logs.rs", "error.rs", "idl/openbook_v2.json"],
  [("interface description", "idl/openbook_v2.json"), ("program entry points", B+"lib.rs"), ("account layouts", B+"state")],
  observe=["bytes of instructions, accounts and events"])

p("C24", "Emitted logs tell exactly what happened",
  "For every instruction the emitted fill, total-fill, position, deposit, settlement, sweep and delegate logs correspond one to one to the trades and balance changes made, with the right parties, sides, prices, quantities, fees, ids and timestamps, and nothing is logged that did not happen. Each fill is logged once, when it is applied to the maker, and every match carries the sequence number announced with its taking order.",
  ["histories", "inputs", "schedules"],
  "every history, inline or cranked",
  "No test checks log contents.",
  ["logs.rs", "state/orderbook/book.rs", "state/open_orders_account.rs", "instructions/settle_funds.rs", "instructions/deposit.rs", "instructions/sweep_fees.rs", "instructions/set_delegate.rs", "instructions/create_market.rs"],
  [("log records", B+"logs.rs"), ("emission", B+"state/open_orders_account.rs:execute_maker, execute_taker")],
  observe=["program data logs of every instruction"])

p("C25", "Book queries agree with the book",
  "Listing the book, with or without invalid entries, yields every fixed order and every pegged order that has a price at the given oracle value exactly once, best first with the right effective price and validity; best price, depth at a price, impact price and worst-order removal agree with that list.",
  ["inputs", "configurations"],
  "all book contents on both sides, all oracle values including absent, extreme and such that some pegs have no price, all clock values",
  "One unit test only checks that prices are monotone and that at least half of the orders show up.",
  ["state/orderbook/bookside.rs", "state/orderbook/bookside_iterator.rs"],
  [("merged iteration", B+"state/orderbook/bookside_iterator.rs"), ("queries", B+"state/orderbook/bookside.rs")],
  observe=["results of the book side queries"])

p("C26", "Volumes and queue penalties are recorded exactly",
  "A trading account's taker volume, each maker's maker volume, the market's maker volume and the volume taken without an account always equal the quote value of the trades made so far, so that once all events are processed both sides agree. Each order instruction that leaves more events queued than before costs exactly one penalty of 500 lamports, paid at once for account-less orders and at the next settlement otherwise, never more and never twice.",
  ["histories", "schedules"],
  "every history and crank schedule",
  "Tests check one penalty and one volume.",
  ["instructions/place_order.rs", "instructions/place_take_order.rs", "instructions/settle_funds.rs", "instructions/cancel_all_and_place_orders.rs", "state/open_orders_account.rs", "state/orderbook/book.rs"],
  [("penalty", B+"instructions/place_order.rs, instructions/settle_funds.rs"), ("volumes", B+"state/open_orders_account.rs, state/orderbook/book.rs")])

p("C27", "Orders are funded exactly: free balance first, then the wallet",
  "Placing an order locks or spends the trading account's free balance first and takes exactly the missing amount from the signer's wallet, never more; if the wallet cannot cover it nothing changes. A deposit credits exactly the amounts transferred, a refill tops the free balance up to the requested amount and never reduces it, and a settlement pays out exactly the free balances.",
  ["inputs", "histories"],
  "all amounts, free balances and wallets, all order types",
  "Tests use ample funds and fixed amounts.",
  ["instructions/place_order.rs", "instructions/cancel_all_and_place_orders.rs", "instructions/deposit.rs", "instructions/settle_funds.rs", "instructions/place_take_order.rs", "lib.rs"],
  [("deposit computation", B+"instructions/place_order.rs"), ("refill", B+"lib.rs:refill"), ("transfers", B+"token_utils.rs")])

p("C28", "The TypeScript client shows the chain as it is",
  "For every state of the chain, what the TypeScript client reads from it is what the accounts hold: the fixed-price orders of both sides in priority order with their prices, sizes, owners and expiry, best prices and depth, each account's orders, position and balances including its pending events, and which accounts a crank still has to serve. Looking up markets and accounts finds exactly the existing ones. Conversions between displayed amounts and lots or native units agree with the market's lot sizes and decimals, and converting back and forth returns the same value.",
  ["inputs", "histories", "configurations"],
  "every state reachable by instruction histories, with full books and queues, any lot sizes and decimals, any price or amount",
  "The client has no tests that run without a network, and they would sample a single state.",
  ["ts/client/src/client.ts", "ts/client/src/market.ts", "ts/client/src/accounts/bookSide.ts", "ts/client/src/accounts/openOrders.ts", "ts/client/src/accounts/eventHeap.ts", "ts/client/src/structs/order.ts", "ts/client/src/utils/watcher.ts"],
  [("book reading", "ts/client/src/accounts/bookSide.ts"), ("account view", "ts/client/src/accounts/openOrders.ts"), ("conversions", "ts/client/src/market.ts"), ("pending events", "ts/client/src/client.ts:getAccountsToConsume")],
  observe=["values the client's classes and functions return for given account bytes"])

p("C29", "Client instruction builders do what they name",
  "Every instruction the TypeScript client builds, through the high-level accounts and order objects or the low-level builders, is accepted by the program whenever the same request made directly would be, and has exactly the same effect: the account, market, side, price, size, order type, expiry, limit, fee admin or delegate asked for. Builders name every account and signer the instruction needs, and those they create have the size the program demands.",
  ["inputs", "histories", "configurations"],
  "every request on every state reachable by instruction histories, on markets with and without oracles, admins and delegates",
  "The client has no tests that run without a network.",
  ["ts/client/src/client.ts", "ts/client/src/accounts/openOrders.ts", "ts/client/src/accounts/eventHeap.ts", "ts/client/src/market.ts"],
  [("instruction builders", "ts/client/src/client.ts"), ("high-level requests", "ts/client/src/accounts/openOrders.ts")],
  observe=["effects of the built instructions on the program compared with those of the requested ones"])

p("C30", "Calls of the Rust client do what they name",
  "Every call of the Rust client sends transactions that are validly signed, paid by the fee payer and carry the configured priority price, and leaves the chain exactly as the request it names would: a call fails, changing nothing, where the request itself would be refused, and succeeds where it would not. Sending ready-made instructions, with or without lookup tables, executes exactly these in order. Finding an account by owner, market and name gives back the one that is there and creates it (with its index, under the next number) exactly when there is none; accounts read are the chain's own, and a confirmed transaction is reported with its signature and slot, a failed or lost one as such.",
  ["inputs", "histories", "configurations"],
  "every call with all arguments on every state reachable by instruction histories, for every signer, fee payer and priority price, on markets with and without oracles and admins",
  "The client has no tests that run without a network.",
  ["lib/client/src/client.rs", "lib/client/src/gpa.rs", "lib/client/src/util.rs"],
  [("calls and transactions", "lib/client/src/client.rs"), ("listing accounts of an owner", "lib/client/src/gpa.rs")],
  observe=["transactions received by a stand-in of a node, and their effects on the program compared with those of the requests"])

p("C31", "The client's account cache is coherent under concurrency",
  "However concurrent lookups, answers, failures, cancelled callers and clearings of the cache interleave, every caller of the caching fetcher gets an answer the source gave for just that account or listing, the latest at hand and never one the source gave before the cache was last cleared ahead of the call. Callers who wait for the same thing share one request to the source, what is at hand is not asked for again, and a failure is reported to those who waited and never remembered. Accounts come out whole, as the node holds them, whether read directly or through the cache.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of any number of callers, answers in any order, failures, abandoned calls and clearings, over accounts that keep changing",
  "Nothing tests the cache; races show only under particular interleavings.",
  ["lib/client/src/account_fetcher.rs"],
  [("cache and shared requests", "lib/client/src/account_fetcher.rs:CachedAccountFetcher"), ("requests to a node", "lib/client/src/account_fetcher.rs:RpcAccountFetcher")],
  observe=["requests that reach the source and what each caller gets"])

p("C32", "The TypeScript client sends what it is given and reports its fate",
  "Sending instructions through the TypeScript client submits exactly one transaction with just these instructions in order (plus the priority price when one is set), paid by the wallet, signed by the wallet and every further signer, made with the lookup tables and the blockhash given or else the latest of the commitment asked for; the caller's list is left alone. Options of the call come before those of the client and these before the provider's, and the callback hears of the transaction once, whatever it throws. The call gives the signature only if that very transaction is confirmed without error at the commitment asked for, and fails otherwise (with the signature, if the transaction failed), also when the wallet refuses or the node does not take it.",
  ["inputs", "configurations", "fault_sequences"],
  "every list of instructions, kind of wallet, set of signers, mix of options of call, client and provider, and every failure of wallet, node, callback and transaction",
  "No test sends a transaction without a network; the mix of options and failures is never sampled.",
  ["ts/client/src/utils/rpc.ts", "ts/client/src/client.ts"],
  [("sending", "ts/client/src/utils/rpc.ts:sendTransaction"), ("options", "ts/client/src/client.ts:sendAndConfirmTransaction")],
  observe=["what the wallet and the connection are asked for, and what the call gives"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
