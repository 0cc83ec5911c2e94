From 83e643591ded3c4da6ffa2dee9ba71da5bfc3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:20 +0000
Subject: [PATCH 1/8] fix: keep the swap step sqrt price from going past its
 target when the required input is rounded up

---
 contracts/oraiswap-v3/src/math/clamm.rs | 8 +++++++-
 wasm/clamm.rs                           | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..dc72b50 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -31,7 +31,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -52,6 +52,12 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             )?;
+            // `amount_in` is rounded up, so a lower amount may already be enough to reach the target,
+            // sqrt_price must not go past it
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = (if x_to_y {
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..656e1ab 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -43,7 +43,7 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
     if by_amount_in {
@@ -64,6 +64,12 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             ))?;
+            // `amount_in` is rounded up, so a lower amount may already be enough to reach the target,
+            // sqrt_price must not go past it
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+                amount_in = amount_after_fee;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
-- 
2.43.0


From f17b2876ce2ce2afab6bd7be2abc4b6104b5107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:23 +0000
Subject: [PATCH 2/8] fix: reject a fee tier that is already registered

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..de4c545 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -625,6 +625,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..d08c55a 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -191,6 +191,9 @@ pub enum ContractError {
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
+    #[error("FeeTierAlreadyExist")]
+    FeeTierAlreadyExist,
+
     #[error("NotEmptyTickDeinitialization")]
     NotEmptyTickDeinitialization,
 }
-- 
2.43.0


From 1d10cd09a6d6c831034bfbeb903bab14023132f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:50 +0000
Subject: [PATCH 3/8] fix: burn the token owner's position when an approved
 spender or operator burns it

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index de4c545..e78dfe7 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -772,8 +772,15 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // the sender may be an approved spender or an operator: the position removed and paid out is the owner's
+    let owner = Addr::unchecked(String::from_utf8(owner_raw.to_vec())?);
+    let info = MessageInfo {
+        sender: owner,
+        funds: info.funds,
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 9608435ba16f0e862b40d0d661ba270f21276b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:13 +0000
Subject: [PATCH 4/8] fix: refund attached native coins when nothing is charged

---
 contracts/oraiswap-v3/src/interface.rs | 56 +++++++++++++-------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..2d1c3ff 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -95,9 +95,9 @@ impl Asset {
         info: &MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
-        if !self.amount.is_zero() {
-            match &self.info {
-                AssetInfo::Token { contract_addr } => {
+        match &self.info {
+            AssetInfo::Token { contract_addr } => {
+                if !self.amount.is_zero() {
                     msgs.push(
                         WasmMsg::Execute {
                             contract_addr: contract_addr.to_string(),
@@ -111,36 +111,38 @@ impl Asset {
                         .into(),
                     );
                 }
-                AssetInfo::NativeToken { denom } => {
-                    match info.funds.iter().find(|x| x.denom.eq(denom)) {
-                        Some(coin) => {
-                            if coin.amount >= self.amount {
-                                let refund_amount = coin.amount - self.amount;
-                                // refund for user
-                                if !refund_amount.is_zero() {
-                                    msgs.push(
-                                        BankMsg::Send {
-                                            to_address: info.sender.to_string(),
-                                            amount: vec![Coin {
-                                                amount: refund_amount,
-                                                denom: denom.to_string(),
-                                            }],
-                                        }
-                                        .into(),
-                                    )
-                                }
-                            } else {
-                                return Err(ContractError::InvalidFunds {
-                                    transfer_amount: self.amount,
-                                });
+            }
+            AssetInfo::NativeToken { denom } => {
+                match info.funds.iter().find(|x| x.denom.eq(denom)) {
+                    Some(coin) => {
+                        if coin.amount >= self.amount {
+                            let refund_amount = coin.amount - self.amount;
+                            // refund for user
+                            if !refund_amount.is_zero() {
+                                msgs.push(
+                                    BankMsg::Send {
+                                        to_address: info.sender.to_string(),
+                                        amount: vec![Coin {
+                                            amount: refund_amount,
+                                            denom: denom.to_string(),
+                                        }],
+                                    }
+                                    .into(),
+                                )
                             }
-                        }
-                        None => {
+                        } else {
                             return Err(ContractError::InvalidFunds {
                                 transfer_amount: self.amount,
                             });
                         }
                     }
+                    // nothing to pay, nothing to refund
+                    None if self.amount.is_zero() => {}
+                    None => {
+                        return Err(ContractError::InvalidFunds {
+                            transfer_amount: self.amount,
+                        });
+                    }
                 }
             }
         }
-- 
2.43.0


From 31a2ae0e58cf6417290425542a5c4503c344d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 5/8] fix: cross an initialized tick lying exactly at the price
 limit of an upward swap

---
 contracts/oraiswap-v3/src/state.rs | 3 ++-
 wasm/collections/tickmap.rs        | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..2107ba1 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -382,7 +382,8 @@ pub fn get_closer_limit(
     };
 
     let sqrt_price = calculate_sqrt_price(index)?;
-    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
+    // a tick exactly at the limit has to be crossed when going up: its interval starts at that price
+    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price <= sqrt_price_limit) {
         Ok((sqrt_price, Some((index, is_initialized))))
     } else {
         Ok((sqrt_price_limit, None))
diff --git a/wasm/collections/tickmap.rs b/wasm/collections/tickmap.rs
index 80cd654..5e690c5 100644
--- a/wasm/collections/tickmap.rs
+++ b/wasm/collections/tickmap.rs
@@ -230,7 +230,7 @@ impl Tickmap {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
@@ -246,7 +246,7 @@ impl Tickmap {
                 }
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, false))))
                 } else {
-- 
2.43.0


From 1183bf504609056d2d69753d80d8a23f5df030e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:42 +0000
Subject: [PATCH 6/8] fix: let attached coins pay for only one hop of a swap
 route

---
 contracts/oraiswap-v3/src/entrypoints/common.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..9f823b7 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -245,6 +245,7 @@ pub fn swap_route_internal(
     swaps: Vec<SwapHop>,
 ) -> Result<TokenAmount, ContractError> {
     let mut next_swap_amount = amount_in;
+    let mut info = info.clone();
 
     let current_timestamp = env.block.time.millis();
 
@@ -258,7 +259,7 @@ pub fn swap_route_internal(
         next_swap_amount = swap_internal(
             store,
             api,
-            info,
+            &info,
             msgs,
             &env.contract.address,
             current_timestamp,
@@ -269,6 +270,14 @@ pub fn swap_route_internal(
             sqrt_price_limit,
         )?
         .amount_out;
+
+        // attached coins are spent (the rest is refunded) by the hop, they can not pay for another one
+        let token_in = if swap_hop.x_to_y {
+            &swap_hop.pool_key.token_x
+        } else {
+            &swap_hop.pool_key.token_y
+        };
+        info.funds.retain(|coin| coin.denom.ne(token_in));
     }
 
     Ok(next_swap_amount)
-- 
2.43.0


From f46e00644b0bc23564ace89adc93e1be5f986cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:38 +0000
Subject: [PATCH 7/8] fix: count the initialized ticks of ranges spanning a
 whole bitmap chunk

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..aafe2b7 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -307,8 +307,9 @@ pub fn get_liquidity_ticks_amount(
     let (min_chunk_index, min_bit) = tick_to_position(lower_tick, tick_spacing);
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
-    let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+    let active_bits_in_range = |chunk: u64, min_bit: u8, max_bit: u8| {
+        // the mask of a whole chunk does not fit the shift of u64
+        let range = (chunk >> min_bit) as u128 & ((1u128 << (max_bit - min_bit + 1)) - 1);
         range.count_ones()
     };
 
-- 
2.43.0


From a28d4337f3f017fcfd3668c0a61d87a22f60cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:33 +0000
Subject: [PATCH 8/8] fix: do not overflow when paging positions with a large
 limit

---
 contracts/oraiswap-v3/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index 2107ba1..b293f6b 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,8 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +229,8 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0

