From 39a2b25fe13d519686ee1a97e461ccdfaf433dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:54 +0000
Subject: [PATCH 01/31] fix: place the new order when an edited order was not
 filled at all

edit_order only posted the replacement when part of the old order had been
filled. With nothing filled it cancelled the old order and placed nothing.
---
 programs/openbook-v2/src/instructions/edit_order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/instructions/edit_order.rs b/programs/openbook-v2/src/instructions/edit_order.rs
index ebfea5a..a627a78 100644
--- a/programs/openbook-v2/src/instructions/edit_order.rs
+++ b/programs/openbook-v2/src/instructions/edit_order.rs
@@ -28,7 +28,7 @@ pub fn edit_order<'c: 'info, 'info>(
 
     let filled_amount = expected_cancel_size - leaf_node_quantity;
     // note that order.max_base_lots is checked to be > 0 inside `place_order`
-    if filled_amount > 0 && order.max_base_lots > filled_amount {
+    if filled_amount >= 0 && order.max_base_lots > filled_amount {
         // Do not reduce max_quote_lots_including_fees as implicitly it's limited by max_base_lots.
         order.max_base_lots -= filled_amount;
         return crate::instructions::place_order(ctx, order, limit);
-- 
2.43.0


From 4754c20039ca871e27849baf0ad3dd13d6dc104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:17 +0000
Subject: [PATCH 02/31] fix: release the locked maker fee when a bid is
 self-traded

A resting bid locks its maker fee. When the same account traded against it,
no fee was charged but the locked fee was not returned, so it was later paid
out to the referrer or the fee pool.
---
 programs/openbook-v2/src/state/open_orders_account.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/openbook-v2/src/state/open_orders_account.rs b/programs/openbook-v2/src/state/open_orders_account.rs
index 81ad493..c5dbb51 100644
--- a/programs/openbook-v2/src/state/open_orders_account.rs
+++ b/programs/openbook-v2/src/state/open_orders_account.rs
@@ -162,6 +162,11 @@ impl OpenOrdersAccount {
             locked_amount_above_fill_price = quote_to_free + maker_fees_to_free;
             fill.peg_limit
         } else {
+            if is_self_trade && side == Side::Bid {
+                // no fee is charged, release the one locked when the bid was posted
+                locked_maker_fees = market.maker_fees_floor(quote_native);
+                locked_amount_above_fill_price = locked_maker_fees;
+            }
             fill.price
         };
 
-- 
2.43.0


From 1f7f27c0848399d0dbf9bbbbf555b4be03a7ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:42 +0000
Subject: [PATCH 03/31] fix: do not lose pegged orders behind a skipped one
 when iterating

While skipping pegged orders that have no price at the current oracle price,
the iterator returned the entry it had already moved past, so the following
pegged order was dropped from matching and from every book query.
---
 programs/openbook-v2/src/state/orderbook/bookside_iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
index 587b60c..7a7992f 100644
--- a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
+++ b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
@@ -179,7 +179,8 @@ impl<'a> Iterator for BookSideIter<'a> {
                 if oracle_pegged_price(oracle_price_lots, o_node, side).0 != OrderState::Skipped {
                     break;
                 }
-                o_peek = self.oracle_pegged_iter.next()
+                self.oracle_pegged_iter.next();
+                o_peek = self.oracle_pegged_iter.peek();
             }
             o_peek
         } else {
-- 
2.43.0


From c645b4804f514f08f5fe82b9269d70fd4c22451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:17 +0000
Subject: [PATCH 04/31] fix: stop matching when the quote limit is used up at
 the best price

A sell order whose quote limit did not cover the whole best bid went on to
trade against worse bids, or posted its remainder across the bid that was
still there. Stop at the first order that could only be matched in part
because of the quote limit, in the program and in the client's simulation.
---
 lib/client/src/book.rs                           | 5 +++++
 programs/openbook-v2/src/state/orderbook/book.rs | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/client/src/book.rs b/lib/client/src/book.rs
index 0877ba6..5231224 100644
--- a/lib/client/src/book.rs
+++ b/lib/client/src/book.rs
@@ -144,6 +144,11 @@ pub fn iterate_book(
             accounts.push(best_opposing.node.owner);
             number_of_processed_fill_events += 1;
         }
+
+        // The quote limit is used up at this price, same as in `new_order`
+        if match_base_lots < best_opposing.node.quantity && remaining_base_lots > 0 {
+            break;
+        }
     }
 
     let total_base_lots_taken = order_max_base_lots - remaining_base_lots;
diff --git a/programs/openbook-v2/src/state/orderbook/book.rs b/programs/openbook-v2/src/state/orderbook/book.rs
index 1c65b2f..f115c20 100644
--- a/programs/openbook-v2/src/state/orderbook/book.rs
+++ b/programs/openbook-v2/src/state/orderbook/book.rs
@@ -255,6 +255,13 @@ impl<'a> Orderbook<'a> {
             )?;
 
             limit -= 1;
+
+            // The quote limit is used up at this price: do not continue at worse prices and do
+            // not post across the order that is still there
+            if !maker_out && remaining_base_lots > 0 {
+                post_target = None;
+                break;
+            }
         }
 
         let total_quote_lots_taken = order_max_quote_lots - remaining_quote_lots;
-- 
2.43.0


From ad9c33307e30ff363d67cd8477f2ecbd8407cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:08 +0000
Subject: [PATCH 05/31] fix: reject an undefined combined oracle confidence

When the first of two oracles reports a price of zero with no deviation, the
relative variance is NaN and every comparison with it is false. The price was
then accepted whatever the uncertainty of the second oracle.
---
 programs/openbook-v2/src/state/oracle.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/openbook-v2/src/state/oracle.rs b/programs/openbook-v2/src/state/oracle.rs
index 447d7f8..5d6cf79 100644
--- a/programs/openbook-v2/src/state/oracle.rs
+++ b/programs/openbook-v2/src/state/oracle.rs
@@ -122,15 +122,16 @@ impl OracleState {
 
         let relative_target_var = config.conf_filter.powi(2);
 
-        if relative_var > relative_target_var {
+        // a price of zero has no relative uncertainty (NaN) and must not pass
+        if relative_var <= relative_target_var {
+            true
+        } else {
             msg!(
                 "Combined confidence too high: computed^2: {}, conf_filter^2: {}",
                 relative_var,
                 relative_target_var
             );
             false
-        } else {
-            true
         }
     }
 }
-- 
2.43.0


From af6d027b15587097e511255745e2407fea7c23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:51 +0000
Subject: [PATCH 06/31] fix: convert the input amount of a quote to lots

The precedence of the expression made it add a fraction below one to the
native amount, so native units were taken as lots and the quoted input
could exceed the amount asked for.
---
 lib/client/src/jup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 99efc53..84e9aba 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -149,10 +149,10 @@ impl Amm for OpenBookMarket {
         let (max_base_lots, max_quote_lots_including_fees) = match side {
             Side::Bid => (
                 self.market.max_base_lots(),
-                input_amount + (self.market.quote_lot_size - 1) / self.market.quote_lot_size,
+                input_amount / self.market.quote_lot_size,
             ),
             Side::Ask => (
-                input_amount + (self.market.base_lot_size - 1) / self.market.base_lot_size,
+                input_amount / self.market.base_lot_size,
                 self.market.max_quote_lots(),
             ),
         };
-- 
2.43.0


From ca1cfd1d79bc762175b7b2e2e8284ac74e4c4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:07 +0000
Subject: [PATCH 07/31] fix: let the taker pay the makers' rebates in quotes

A taking order pays the makers' rebates on top of the quote amount when
buying and out of the proceeds when selling. The quote had both signs
the wrong way round.
---
 lib/client/src/jup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 84e9aba..92eda7e 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -176,12 +176,12 @@ impl Amm for OpenBookMarket {
 
         let (in_amount, out_amount) = match side {
             Side::Bid => (
-                order_amounts.total_quote_taken_native - order_amounts.fee,
+                order_amounts.total_quote_taken_native + order_amounts.fee,
                 order_amounts.total_base_taken_native,
             ),
             Side::Ask => (
                 order_amounts.total_base_taken_native,
-                order_amounts.total_quote_taken_native + order_amounts.fee,
+                order_amounts.total_quote_taken_native - order_amounts.fee,
             ),
         };
 
-- 
2.43.0


From 3e9b0ebaba73ccd101edc527c41335cef695a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:40 +0000
Subject: [PATCH 08/31] fix: do not quote expired orders

The simulation ran at time zero, at which no order has expired, although
the clock is part of the updated accounts.
---
 lib/client/src/jup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 92eda7e..456f44f 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -171,7 +171,7 @@ impl Amm for OpenBookMarket {
             max_quote_lots_including_fees,
             &self.market,
             self.oracle_price,
-            0,
+            self.timestamp,
         )?;
 
         let (in_amount, out_amount) = match side {
-- 
2.43.0


From 1d4c0120f9cae1e7e92cc10177ab9b9ce312fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:03 +0000
Subject: [PATCH 09/31] fix: mark ancestors of a best slot that is first seen
 as rooted

Marking stopped at the rooted slot itself, so account writes of its
ancestors counted as belonging to another fork and were dropped.
---
 lib/client/src/chain_data.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 4db62c5..7b750fa 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -93,14 +93,11 @@ impl ChainData {
         };
 
         if new_best_chain || parent_update {
-            // update the "chain" field down to the first rooted slot
+            // update the "chain" field down to the oldest known slot
             let mut slot = self.best_chain_slot;
             loop {
                 if let Some(data) = self.slots.get_mut(&slot) {
                     data.chain = self.best_chain_slot;
-                    if data.status == SlotStatus::Rooted {
-                        break;
-                    }
                     if let Some(parent) = data.parent {
                         slot = parent;
                         continue;
-- 
2.43.0


From 647c4f5b311c1ddfec40f92832bbd972585bae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:17 +0000
Subject: [PATCH 10/31] fix: complete the best chain when a missing slot is
 announced

A slot announced after its descendants, and everything below it, was not
marked as part of the best chain, so its account writes were passed over
until the next slot arrived.
---
 lib/client/src/chain_data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 7b750fa..af4ec62 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -75,12 +75,14 @@ impl ChainData {
             self.best_chain_slot = new_slot.slot;
         }
 
-        let mut parent_update = false;
+        let parent_update;
 
         use std::collections::hash_map::Entry;
         match self.slots.entry(new_slot.slot) {
             Entry::Vacant(v) => {
                 v.insert(new_slot);
+                // the slot may be the missing link of the best chain
+                parent_update = true;
             }
             Entry::Occupied(o) => {
                 let v = o.into_mut();
-- 
2.43.0


From 13d68e2e5a3b07cd9c89747ca0897e80f810315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:42 +0000
Subject: [PATCH 11/31] fix: ignore late notifications about slots before the
 root

They brought back a slot that had been dropped, as one of an unknown
fork, which hid the account writes kept for it.
---
 lib/client/src/chain_data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index af4ec62..3aa3bb1 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -57,6 +57,12 @@ impl ChainData {
     }
 
     pub fn update_slot(&mut self, new_slot: SlotData) {
+        // Slots before the newest rooted one are no longer tracked, a late message about them
+        // must not bring them back: the account writes kept for them are the rooted ones
+        if new_slot.slot < self.newest_rooted_slot {
+            return;
+        }
+
         let new_processed_head = new_slot.slot > self.newest_processed_slot;
         if new_processed_head {
             self.newest_processed_slot = new_slot.slot;
-- 
2.43.0


From 33ca589da59a5704061271b9f0506617c597ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:25 +0000
Subject: [PATCH 12/31] fix: prefer the announced parent of a slot over a
 guessed one

A slot first seen through an account fetched from a node gets the best
slot as its parent. The real parent announced later was ignored, so the
account writes of the slots in between were passed over.
---
 lib/client/src/chain_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 3aa3bb1..7462fbb 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -93,7 +93,7 @@ impl ChainData {
             Entry::Occupied(o) => {
                 let v = o.into_mut();
                 parent_update = v.parent != new_slot.parent && new_slot.parent.is_some();
-                v.parent = v.parent.or(new_slot.parent);
+                v.parent = new_slot.parent.or(v.parent);
                 if v.status == SlotStatus::Processed || new_slot.status == SlotStatus::Rooted {
                     v.status = new_slot.status;
                 }
-- 
2.43.0


From 07b9e21fc19b0e6fbb4c1b7897aca638e87c87bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:00 +0000
Subject: [PATCH 13/31] fix: describe the TakerSignatureLog event in the
 published interface

---
 idl/openbook_v2.json         | 15 +++++++++++++++
 ts/client/src/openbook_v2.ts | 30 ++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/idl/openbook_v2.json b/idl/openbook_v2.json
index 97243f5..082f36d 100644
--- a/idl/openbook_v2.json
+++ b/idl/openbook_v2.json
@@ -3419,6 +3419,21 @@
         }
       ]
     },
+    {
+      "name": "TakerSignatureLog",
+      "fields": [
+        {
+          "name": "market",
+          "type": "publicKey",
+          "index": false
+        },
+        {
+          "name": "seqNum",
+          "type": "u64",
+          "index": false
+        }
+      ]
+    },
     {
       "name": "MarketMetaDataLog",
       "fields": [
diff --git a/ts/client/src/openbook_v2.ts b/ts/client/src/openbook_v2.ts
index 9b69051..e1e797e 100644
--- a/ts/client/src/openbook_v2.ts
+++ b/ts/client/src/openbook_v2.ts
@@ -3266,6 +3266,21 @@ export type OpenbookV2 = {
         },
       ];
     },
+    {
+      name: 'TakerSignatureLog';
+      fields: [
+        {
+          name: 'market';
+          type: 'publicKey';
+          index: false;
+        },
+        {
+          name: 'seqNum';
+          type: 'u64';
+          index: false;
+        },
+      ];
+    },
     {
       name: 'MarketMetaDataLog';
       fields: [
@@ -6968,6 +6983,21 @@ export const IDL: OpenbookV2 = {
         },
       ],
     },
+    {
+      name: 'TakerSignatureLog',
+      fields: [
+        {
+          name: 'market',
+          type: 'publicKey',
+          index: false,
+        },
+        {
+          name: 'seqNum',
+          type: 'u64',
+          index: false,
+        },
+      ],
+    },
     {
       name: 'MarketMetaDataLog',
       fields: [
-- 
2.43.0


From 5eb6f8879f31807e6d43564a0133e77c6fa2a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:00 +0000
Subject: [PATCH 14/31] fix: account and report only the fees a taker without
 open orders pays

---
 programs/openbook-v2/src/state/orderbook/book.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/programs/openbook-v2/src/state/orderbook/book.rs b/programs/openbook-v2/src/state/orderbook/book.rs
index f115c20..bb8e980 100644
--- a/programs/openbook-v2/src/state/orderbook/book.rs
+++ b/programs/openbook-v2/src/state/orderbook/book.rs
@@ -284,10 +284,17 @@ impl<'a> Orderbook<'a> {
 
                 // Only account taker fees now. Maker fees accounted once processing the event
                 referrer_amount = taker_fees_native - maker_rebates_acc;
-                market.fees_accrued += referrer_amount as u128;
+            };
+
+            // Without an open orders account only the makers' rebates are charged
+            let charged_fees_native = if open_orders_account.is_some() {
+                taker_fees_native
+            } else {
+                taker_fees_native - referrer_amount
             };
 
             if let Some(open_orders_account) = &mut open_orders_account {
+                market.fees_accrued += referrer_amount as u128;
                 open_orders_account.execute_taker(
                     market,
                     side,
@@ -302,12 +309,12 @@ impl<'a> Orderbook<'a> {
 
             let (total_quantity_paid, total_quantity_received) = match side {
                 Side::Bid => (
-                    total_quote_taken_native + taker_fees_native,
+                    total_quote_taken_native + charged_fees_native,
                     total_base_taken_native,
                 ),
                 Side::Ask => (
                     total_base_taken_native,
-                    total_quote_taken_native - taker_fees_native,
+                    total_quote_taken_native - charged_fees_native,
                 ),
             };
 
@@ -316,7 +323,7 @@ impl<'a> Orderbook<'a> {
                 taker: *owner,
                 total_quantity_paid,
                 total_quantity_received,
-                fees: taker_fees_native,
+                fees: charged_fees_native,
             });
         }
 
-- 
2.43.0


From a5f48825a590ac29f18fa7090aacda2e1a707770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:11 +0000
Subject: [PATCH 15/31] fix: find the pending events of an account in the
 client

Free positions of the event heap were taken for events of the default
key, and keys were compared by identity, so no slot was ever found and
accounts were repeated.
---
 ts/client/src/client.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index f28d1ab..7e172ba 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1093,14 +1093,17 @@ export class OpenBookV2Client {
     let accounts: PublicKey[] = new Array<PublicKey>();
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const node of eventHeap.nodes) {
+      let index = eventHeap.header.usedHead;
+      for (let i = 0; i < eventHeap.header.count; ++i) {
+        const node = eventHeap.nodes[index];
+        index = node.next;
         if (node.event.eventType === 0) {
           const fillEvent: FillEvent = this.program.coder.types.decode(
             'FillEvent',
             Buffer.from([0, ...node.event.padding]),
           );
           accounts = accounts
-            .filter((a) => a !== fillEvent.maker)
+            .filter((a) => !a.equals(fillEvent.maker))
             .concat([fillEvent.maker]);
         } else {
           const outEvent: OutEvent = this.program.coder.types.decode(
@@ -1108,7 +1111,7 @@ export class OpenBookV2Client {
             Buffer.from([0, ...node.event.padding]),
           );
           accounts = accounts
-            .filter((a) => a !== outEvent.owner)
+            .filter((a) => !a.equals(outEvent.owner))
             .concat([outEvent.owner]);
         }
         // Tx would be too big, do not add more accounts
@@ -1126,19 +1129,23 @@ export class OpenBookV2Client {
 
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const [i, node] of eventHeap.nodes.entries()) {
+      let index = eventHeap.header.usedHead;
+      for (let i = 0; i < eventHeap.header.count; ++i) {
+        const slot = index;
+        const node = eventHeap.nodes[slot];
+        index = node.next;
         if (node.event.eventType === 0) {
           const fillEvent: FillEvent = this.program.coder.types.decode(
             'FillEvent',
             Buffer.from([0, ...node.event.padding]),
           );
-          if (key === fillEvent.maker) slots.push(new BN(i));
+          if (key.equals(fillEvent.maker)) slots.push(new BN(slot));
         } else {
           const outEvent: OutEvent = this.program.coder.types.decode(
             'OutEvent',
             Buffer.from([0, ...node.event.padding]),
           );
-          if (key === outEvent.owner) slots.push(new BN(i));
+          if (key.equals(outEvent.owner)) slots.push(new BN(slot));
         }
       }
     }
-- 
2.43.0


From 5138073a7ebde663cc16744d24748f1ada7b51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:38 +0000
Subject: [PATCH 16/31] fix: accept account queries that carry no error member

A JSON-RPC answer has either a result or an error. The test for a null
error took every successful answer for a failed one.
---
 ts/client/src/client.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 7e172ba..d811cb8 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1167,7 +1167,7 @@ export async function getFilteredProgramAccounts(
       encoding: 'base64',
     },
   ]);
-  if (resp.error !== null) {
+  if (resp.error != null) {
     throw new Error(resp.error.message);
   }
   return resp.result.map(
-- 
2.43.0


From d575d5d06228685f5f5c1fb0a0d77a9f95861c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:45 +0000
Subject: [PATCH 17/31] fix: look up markets by mint at the offsets of the
 current layout

The offsets were those of an older market account, so no market was
ever found.
---
 ts/client/src/market.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index d9ea16d..7d8b77c 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -31,13 +31,13 @@ export async function findAccountsByMints(
   const filters = [
     {
       memcmp: {
-        offset: 792,
+        offset: 576,
         bytes: baseMintAddress.toBase58(),
       },
     },
     {
       memcmp: {
-        offset: 824,
+        offset: 608,
         bytes: quoteMintAddress.toBase58(),
       },
     },
-- 
2.43.0


From 760ef0b546ff44d40f05e5c37679c5325e546f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:45 +0000
Subject: [PATCH 18/31] fix: decode watched open orders accounts by their name

The account type is called openOrdersAccount. Every change of a watched
account raised an invalid discriminator error.
---
 ts/client/src/utils/watcher.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/utils/watcher.ts b/ts/client/src/utils/watcher.ts
index dcec4eb..8313dcb 100644
--- a/ts/client/src/utils/watcher.ts
+++ b/ts/client/src/utils/watcher.ts
@@ -62,7 +62,7 @@ export class Watcher {
       pubkey,
       (ai) => {
         openOrders.account = market.client.program.coder.accounts.decode(
-          'OpenOrders',
+          'openOrdersAccount',
           ai.data,
         );
       },
-- 
2.43.0


From 12e1f1e140fd391534cc50210dc138c11ca4b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:28 +0000
Subject: [PATCH 19/31] fix: count pending fills of the account in its balance

A fill names the open orders account of the maker, not its owner. No
pending fill was ever counted.
---
 ts/client/src/accounts/openOrders.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 20ad2e8..88d76a0 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -148,7 +148,7 @@ export class OpenOrders {
         switch (event.eventType) {
           case EventType.Fill: {
             const { maker, quantity, price, takerSide } = event as FillEvent;
-            if (maker.equals(this.account.owner)) {
+            if (maker.equals(this.pubkey)) {
               const baseNative = quantity.mul(baseLotSize);
               const quoteNative = quantity.mul(price).imul(quoteLotSize);
               const quoteFeesNative = this.market.makerFeeFloor(quoteNative);
-- 
2.43.0


From 3696b4b20bcd08a4f0c67d9ead8e7ca381c8e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:25 +0000
Subject: [PATCH 20/31] fix: charge no maker fee on pending self trades in the
 balance

The program charges none either.
---
 ts/client/src/accounts/openOrders.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 88d76a0..ea4929f 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -147,11 +147,15 @@ export class OpenOrders {
       for (const event of this.market.eventHeap.parsedEvents()) {
         switch (event.eventType) {
           case EventType.Fill: {
-            const { maker, quantity, price, takerSide } = event as FillEvent;
+            const { maker, taker, quantity, price, takerSide } =
+              event as FillEvent;
             if (maker.equals(this.pubkey)) {
               const baseNative = quantity.mul(baseLotSize);
               const quoteNative = quantity.mul(price).imul(quoteLotSize);
-              const quoteFeesNative = this.market.makerFeeFloor(quoteNative);
+              // self trades don't pay fees
+              const quoteFeesNative = maker.equals(taker)
+                ? new BN(0)
+                : this.market.makerFeeFloor(quoteNative);
               if (takerSide === 1) {
                 // buy
                 base.iadd(baseNative);
-- 
2.43.0


From 5b5317344c27f66f824e3c4a3c3120988cf850c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:15 +0000
Subject: [PATCH 21/31] fix: show an order as expired from the second its time
 is up

The program takes it for expired at that second already.
---
 ts/client/src/accounts/bookSide.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/bookSide.ts b/ts/client/src/accounts/bookSide.ts
index 8103849..9b91a07 100644
--- a/ts/client/src/accounts/bookSide.ts
+++ b/ts/client/src/accounts/bookSide.ts
@@ -128,7 +128,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
         );
       }
     }
@@ -157,7 +157,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
           true,
         );
       }
-- 
2.43.0


From 0c70d0161b0ae3865d65455318aaec2066c9d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:23 +0000
Subject: [PATCH 22/31] fix: keep prices below one native quote unit when
 converting to lots

The price was rounded to native units before the base lot size came in,
so uiPriceToLots gave zero for a tick smaller than that.
---
 ts/client/src/market.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index 7d8b77c..bcc6918 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -143,9 +143,10 @@ function quoteLotsToUiConverter(market: MarketAccount): number {
 }
 
 export function uiPriceToLots(market: MarketAccount, price: number): BN {
-  return toNative(price, market.quoteDecimals)
-    .mul(market.baseLotSize)
-    .div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
+  return toNative(
+    price * Number(market.baseLotSize.toString()),
+    market.quoteDecimals,
+  ).div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
 }
 
 export function uiBaseToLots(market: MarketAccount, quantity: number): BN {
-- 
2.43.0


From d4b10ca795c9f4c403047d7e83033523c3707008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:42 +0000
Subject: [PATCH 23/31] fix: list the markets of all transactions, not of the
 first fifty again

Every batch of signatures was the first one.
---
 ts/client/src/market.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index bcc6918..0d6e659 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -70,9 +70,9 @@ export async function findAllMarkets(
   const signatures = (
     await connection.getSignaturesForAddress(eventAuthority)
   ).map((x) => x.signature);
-  const batchSignatures: [string[]] = [[]];
+  const batchSignatures: string[][] = [];
   for (let i = 0; i < signatures.length; i += BATCH_TX_SIZE) {
-    batchSignatures.push(signatures.slice(0, BATCH_TX_SIZE));
+    batchSignatures.push(signatures.slice(i, i + BATCH_TX_SIZE));
   }
   for (const batch of batchSignatures) {
     const allTxs = await connection.getTransactions(batch, {
-- 
2.43.0


From a359dbfb974390ad4b770b2e3f0e7fdb9edbbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:53 +0000
Subject: [PATCH 24/31] fix: name no consume events admin where a market has
 none

consumeGivenEventsIx and consumeEventsForAccountIx asked for the
signature of the default key on such markets.
---
 ts/client/src/client.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index d811cb8..5343b6e 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1029,7 +1029,11 @@ export class OpenBookV2Client {
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin: market.consumeEventsAdmin.key.equals(
+          PublicKey.default,
+        )
+          ? null
+          : market.consumeEventsAdmin.key,
       })
       .remainingAccounts(accountsMeta)
       .instruction();
@@ -1053,7 +1057,11 @@ export class OpenBookV2Client {
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin: market.consumeEventsAdmin.key.equals(
+          PublicKey.default,
+        )
+          ? null
+          : market.consumeEventsAdmin.key,
       })
       .remainingAccounts(accountsMeta)
       .instruction();
-- 
2.43.0


From 53060b5a9f8f5e4159d3542f7a421f2dcd5149f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:22 +0000
Subject: [PATCH 25/31] fix: let the delegate sign the cancellations it asks
 for

The cancel instructions named the owner as signer and gave back the
delegate as further signer, so a delegate could not cancel without the
owner's signature.
---
 ts/client/src/client.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 5343b6e..daa223f 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -817,7 +817,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrder(orderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -841,7 +841,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrderByClientOrderId(clientOrderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -866,7 +866,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelAllOrders(side, limit)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
-- 
2.43.0


From 6c277be394eb96fa41a74ff256f6c8138300038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:13 +0000
Subject: [PATCH 26/31] fix: close the index account in
 closeOpenOrdersIndexerIx

The asks and bids of a market were given in place of the index account
and of the receiver of its rent.
---
 ts/client/src/client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index daa223f..c980b76 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -893,8 +893,8 @@ export class OpenBookV2Client {
         .closeOpenOrdersIndexer()
         .accounts({
           owner: owner.publicKey,
-          openOrdersIndexer: market.asks,
-          solDestination: market.bids,
+          openOrdersIndexer,
+          solDestination: this.walletPk,
           tokenProgram: TOKEN_PROGRAM_ID,
         })
         .instruction();
-- 
2.43.0


From aa7f85ac900dae3aec59584571012f2889eff3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:57 +0000
Subject: [PATCH 27/31] fix: sign transactions with the signers they require
 only

---
 lib/client/src/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 0e7c45a..3fa54db 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -775,11 +775,15 @@ impl<'a> TransactionBuilder<'a> {
             &self.address_lookup_tables,
             blockhash,
         )?;
+        // a transaction takes the signatures it requires only
+        let required_signers =
+            v0_message.account_keys[..v0_message.header.num_required_signatures as usize].to_vec();
         let versioned_message = solana_sdk::message::VersionedMessage::V0(v0_message);
         let signers = self
             .signers
             .into_iter()
             .unique_by(|s| s.pubkey())
+            .filter(|s| required_signers.contains(&s.pubkey()))
             .collect::<Vec<_>>();
         let tx =
             solana_sdk::transaction::VersionedTransaction::try_new(versioned_message, &signers)?;
-- 
2.43.0


From b93ec600e9761f3505adcb689fc3f83c94553420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:57 +0000
Subject: [PATCH 28/31] fix: name the open orders admin when placing orders

---
 lib/client/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 3fa54db..59a991f 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -399,7 +399,7 @@ impl OpenBookClient {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::PlaceOrder {
                         open_orders_account: self.open_orders_account,
-                        open_orders_admin: None,
+                        open_orders_admin: market.open_orders_admin.into(),
                         signer: self.owner(),
                         market: market_address,
                         bids: market.bids,
@@ -455,7 +455,7 @@ impl OpenBookClient {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::PlaceOrder {
                         open_orders_account: self.open_orders_account,
-                        open_orders_admin: None,
+                        open_orders_admin: market.open_orders_admin.into(),
                         signer: self.owner(),
                         market: market_address,
                         bids: market.bids,
-- 
2.43.0


From d3a34a2c957d7d4795b032ca2f0152631cc3aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:57 +0000
Subject: [PATCH 29/31] fix: number new open orders accounts by the indexer,
 creating it first

---
 lib/client/src/client.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 59a991f..a130460 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -13,7 +13,9 @@ use itertools::Itertools;
 
 use openbook_v2::state::OracleConfigParams;
 use openbook_v2::{
-    state::{Market, OpenOrdersAccount, PlaceOrderType, SelfTradeBehavior, Side},
+    state::{
+        Market, OpenOrdersAccount, OpenOrdersIndexer, PlaceOrderType, SelfTradeBehavior, Side,
+    },
     PlaceMultipleOrdersArgs, PlaceOrderArgs, PlaceOrderPeggedArgs,
 };
 
@@ -119,17 +121,34 @@ impl OpenBookClient {
         let rpc = client.rpc_async();
         let program = openbook_v2::ID;
 
-        let mut openbook_account_tuples =
+        let openbook_account_tuples =
             fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
         let openbook_account_opt = openbook_account_tuples
             .iter()
             .find(|(_, account)| account.name() == openbook_account_name);
         if openbook_account_opt.is_none() {
-            openbook_account_tuples
-                .sort_by(|a, b| a.1.account_num.partial_cmp(&b.1.account_num).unwrap());
-            let account_num = match openbook_account_tuples.last() {
-                Some(tuple) => tuple.1.account_num + 1,
-                None => 0u32,
+            // the indexer counts closed accounts too
+            let open_orders_indexer = Pubkey::find_program_address(
+                &[b"OpenOrdersIndexer".as_ref(), owner.pubkey().as_ref()],
+                &program,
+            )
+            .0;
+            let indexer_opt = rpc
+                .get_account_with_commitment(&open_orders_indexer, rpc.commitment())
+                .await?
+                .value;
+            let account_num = match indexer_opt {
+                Some(account) => {
+                    OpenOrdersIndexer::try_deserialize(&mut (&account.data as &[u8]))?
+                        .created_counter
+                        + 1
+                }
+                None => {
+                    Self::create_open_orders_indexer(client, owner, payer)
+                        .await
+                        .context("Failed to create indexer...")?;
+                    1
+                }
             };
             Self::create_open_orders_account(
                 client,
-- 
2.43.0


From 596caa7badb7ae0a2d0668c936d929b2085244e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:57 +0000
Subject: [PATCH 30/31] fix: let the market account sign its creation

---
 lib/client/src/client.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index a130460..eda9bb1 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -322,7 +322,7 @@ impl OpenBookClient {
     #[allow(clippy::too_many_arguments)]
     pub async fn create_market(
         &self,
-        market: Pubkey,
+        market: &Keypair, // signs for the creation of the market account
         market_authority: Pubkey,
         bids: Pubkey,
         asks: Pubkey,
@@ -349,7 +349,7 @@ impl OpenBookClient {
             accounts: {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::CreateMarket {
-                        market,
+                        market: market.pubkey(),
                         market_authority,
                         bids,
                         asks,
@@ -392,7 +392,15 @@ impl OpenBookClient {
                 time_expiry,
             }),
         };
-        self.send_and_confirm_owner_tx(vec![ix]).await
+        TransactionBuilder {
+            instructions: vec![ix],
+            address_lookup_tables: vec![],
+            payer: self.client.fee_payer.pubkey(),
+            signers: vec![&*self.owner, &*self.client.fee_payer, market],
+            config: self.client.transaction_builder_config,
+        }
+        .send_and_confirm(&self.client)
+        .await
     }
 
     #[allow(clippy::too_many_arguments)]
-- 
2.43.0


From 175af7306bef13b09c59ea679e466bcfb5f88f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:57 +0000
Subject: [PATCH 31/31] fix: look up open orders accounts by market as well as
 name

---
 lib/client/src/client.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index eda9bb1..f3106e1 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -123,9 +123,9 @@ impl OpenBookClient {
 
         let openbook_account_tuples =
             fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
-        let openbook_account_opt = openbook_account_tuples
-            .iter()
-            .find(|(_, account)| account.name() == openbook_account_name);
+        let openbook_account_opt = openbook_account_tuples.iter().find(|(_, account)| {
+            account.market == market && account.name() == openbook_account_name
+        });
         if openbook_account_opt.is_none() {
             // the indexer counts closed accounts too
             let open_orders_indexer = Pubkey::find_program_address(
@@ -166,7 +166,7 @@ impl OpenBookClient {
             fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
         let index = openbook_account_tuples
             .iter()
-            .position(|tuple| tuple.1.name() == openbook_account_name)
+            .position(|tuple| tuple.1.market == market && tuple.1.name() == openbook_account_name)
             .unwrap();
         Ok(openbook_account_tuples[index].0)
     }
-- 
2.43.0

