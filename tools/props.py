prop("C01", "A swap step never overshoots, overcharges or underfills",
     "For every current price, target price, liquidity, amount, mode and fee within one liquidity range, a swap step ends at a price between the current and the target price, never uses more than the offered input (exact-in) and never pays more than the requested output (exact-out). "
     "The input covers the price move rounded up and the output is at most the price move rounded down, so the pool never loses to rounding. "
     "When the target is reached the fee is the rounded-up fee share of the input, and a partial exact-in fill consumes the whole amount.",
     ["inputs"], "all u128 amounts and liquidity, all prices in the supported range, all fees below 100%, both directions and modes",
     "existing tests sample a few prices and amounts; the rounding corner cases occupy a vanishing part of a 400-bit input space",
     [S + "math/clamm.rs"], [("compute_swap_step", S + "math/clamm.rs"), ("get_delta_x / get_delta_y", S + "math/clamm.rs"), ("get_next_sqrt_price_*", S + "math/clamm.rs")])
prop("C02", "Only the admin and the fee receiver can use privileged operations",
     "Changing the admin, the protocol fee, a pool's fee receiver or the fee tiers succeeds exactly for the current admin (with a valid, not yet registered tier), and withdrawing protocol fees exactly for the pool's current fee receiver. "
     "Each such operation changes only the item it names; a withdrawal zeroes both protocol fee balances and pays exactly those amounts to the receiver.",
     ["inputs", "configurations"], "all callers, admins, receivers, fee tiers and stored balances",
     "tests use a couple of fixed addresses and values and check success or failure, not that nothing else changes",
     [S + "entrypoints/execute.rs", S + "contract.rs", S + "storage/pool.rs"], [("sender check against the stored admin", S + "entrypoints/execute.rs"), ("fee receiver check", S + "entrypoints/execute.rs")])
prop("C03", "Only owners, approved spenders and operators control a position token",
     "A position token can be transferred, sent or burned only by its owner, a spender with an unexpired approval for that token, or an unexpired operator of the owner; approvals can be changed only by the owner or an unexpired operator; plain position calls act only on the caller's own positions. "
     "Approvals and operator grants change exactly as asked, are refused when already expired, and are cleared on transfer. "
     "Burning or removing a position always pays the position's owner.",
     ["inputs", "configurations"], "all callers, owners, targets, approvals, operator grants, expirations, block heights and times",
     "tests exercise one approval at a time with fixed names and never an expired grant at each entry point",
     [S + "entrypoints/execute.rs", S + "entrypoints/common.rs", S + "state.rs"],
     [("check_can_send / check_can_approve", S + "entrypoints/common.rs"), ("update_approvals", S + "entrypoints/common.rs"), ("transfer_nft", S + "entrypoints/common.rs")])
prop("C04", "Position lists stay dense and lose or duplicate nothing",
     "After any position message each account's positions occupy exactly the indices below its recorded count. "
     "A transfer moves exactly the addressed position, a removal deletes exactly the addressed position, and every other position of every account keeps its data.",
     ["inputs", "histories"], "all indices, accounts (including self transfers) and messages from every list configuration within the bound",
     "tests remove or transfer from short fixed lists; index swap mistakes show only for particular index and owner combinations",
     [S + "state.rs", S + "entrypoints/execute.rs", S + "entrypoints/common.rs"],
     [("add_position / remove_position (swap with last)", S + "state.rs"), ("position_key", S + "state.rs")],
     state=[("POSITIONS_LENGTH", "number of positions per account", S + "state.rs")])
prop("C05", "Opening and closing positions moves exactly the liquidity and tokens owed",
     "Opening a position adds its liquidity to its two ticks (net and gross) and, exactly when the current tick lies in the range, to the pool; it charges the token amounts of the range at the current price rounded up and refunds the rest of the attached coins. "
     "Removing it undoes exactly that, drops ticks (and their bitmap bits) that become empty and pays the amounts rounded down plus owed fees. "
     "No other tick or pool field changes, opening then closing never gains tokens, and invalid ranges, zero liquidity or prices outside the slippage limits are refused.",
     ["inputs", "histories"], "every pool price and liquidity, liquidity delta, tick content, slippage limits, attached coins and timestamps, for the listed tick ranges and price regions",
     "tests open a handful of positions with round numbers; rounding direction, sign changes of net liquidity and tick removal depend on specific values",
     [S + "storage/pool.rs", S + "storage/position.rs", S + "storage/tick.rs", S + "entrypoints/common.rs", S + "entrypoints/execute.rs", S + "interface.rs", S + "math/clamm.rs"],
     [("Pool::update_liquidity / calculate_amount_delta", S + "math/clamm.rs"), ("Position::create / modify / remove", S + "storage/position.rs"), ("Tick::update", S + "storage/tick.rs"), ("Asset::transfer_from", S + "interface.rs")],
     state=[("Pool.liquidity", "sum of the liquidity of the positions around the current tick", S + "storage/pool.rs")])
prop("C06", "Searching, flipping and counting initialized ticks is exact",
     "A search for the next or previous initialized tick finds exactly the nearest one within 256 tick spacings (upward searches exclude the start tick, downward ones include it) and reports none only if there is none. "
     "Flipping a tick changes exactly that tick's bit of that pool, setting only unset and resetting only set ticks, and the initialized-tick query reports it. "
     "The tickmap and tick-count queries report exactly the stored ticks of the range.",
     ["inputs", "configurations"], "every content of the bitmap around the listed start ticks, spacings 1, 7, 10 and 100, chunk borders and both ends of the range",
     "tests set one or two bits; an off-by-one at a chunk border or at the range's end needs a particular bitmap",
     [S + "storage/tickmap.rs", S + "state.rs", S + "entrypoints/query.rs", S + "entrypoints/common.rs"],
     [("next_initialized / prev_initialized", S + "state.rs"), ("flip_bitmap", S + "state.rs"), ("tickmap_slice / liquidity_ticks_amount", S + "entrypoints/query.rs")],
     state=[("BITMAP", "one bit per tick spacing and pool", S + "state.rs")])
prop("C07", "Ticks and prices correspond",
     "The price of tick t is sqrt(1.0001^t) to a relative 1e-7, lies in the supported price range and exists exactly for ticks in the supported tick range. "
     "Looking up the tick of any price gives the multiple of the tick spacing whose interval [price(t), price(t+spacing)) contains it, up to both ends of the range, and prices outside the range are refused.",
     ["inputs"], "every price of the listed tick intervals and every tick of the listed blocks, tick spacings 1, 2, 5, 7, 10, 60 and 100",
     "tests look up a few prices; an error of the logarithm approximation shows only next to particular interval borders",
     [S + "math/types/sqrt_price.rs", S + "math/log.rs"],
     [("calculate_sqrt_price", S + "math/types/sqrt_price.rs"), ("get_tick_at_sqrt_price", S + "math/log.rs")])
prop("C08", "A swap respects its limit and leaves price, tick and liquidity consistent",
     "A swap moves the price only in its direction and never past the caller's price limit; an exact-in swap charges exactly the amount and an exact-out swap pays at most the amount, and a swap that pays nothing or cannot be filled before the limit is refused. "
     "Afterwards the pool's tick is the interval of its price and its liquidity is the sum of the positions around that tick, each initialized tick passed on the way was crossed exactly once (outside fee growths and seconds turned around) and no other tick changed. "
     "The amounts, fees and pool fields are those of walking from initialized tick to initialized tick with one swap step each.",
     ["inputs", "histories"], "every start price in the interval, position liquidity, amount, limit, fee growth and outside values for the listed tick layouts, both directions and modes",
     "tests run a few swaps with round amounts; crossing exactly at a tick, at the limit, through a gap or with a leftover that cannot move the price depends on specific values",
     [S + "state.rs", S + "storage/pool.rs", S + "storage/tick.rs", S + "math/clamm.rs", S + "entrypoints/common.rs"],
     [("calculate_swap", S + "entrypoints/common.rs"), ("Pool::update_tick / cross_tick", S + "storage/pool.rs"), ("get_closer_limit", S + "state.rs"), ("Tick::cross", S + "storage/tick.rs")],
     state=[("Pool.liquidity", "sum of the liquidity of the positions around the current tick", S + "storage/pool.rs"), ("Pool.current_tick_index", "tick interval of the pool's price", S + "storage/pool.rs")])
prop("C09", "A quote is exactly what the swap then does",
     "Quoting a swap or a route in some state succeeds exactly when executing it in that state does (given payment and the route's minimum), and returns exactly the input charged, the output paid, the price afterwards and the ticks crossed with the contents the swap leaves in them. "
     "Routes over distinct pools pay exactly the quoted output.",
     ["inputs", "histories"], "every start price in the interval, position liquidity, amount, limit and route minimum for the listed tick layouts and two-hop routes, both directions and modes",
     "tests compare quote and swap for a few fixed amounts; a divergence can depend on a tick crossing or on a specific amount",
     [S + "entrypoints/query.rs", S + "entrypoints/common.rs"],
     [("quote / quote_route", S + "entrypoints/query.rs"), ("calculate_swap / route", S + "entrypoints/common.rs")])
prop("C10", "Swaps and routes charge, refund and pay exactly",
     "A swap takes from the caller exactly the input it charges and gives exactly its output: cw20 input by transfer from the caller to the contract, native input from the attached coins with the rest refunded, and it is refused when too few coins are attached. "
     "A route does the same for every hop, never uses attached coins for two hops, and succeeds only if its final output is at least the expected amount less slippage. "
     "No message moves another token or involves a third party.",
     ["inputs", "configurations"], "cw20 and native tokens in every combination, every attached amount, expected amount, slippage, pool price and liquidity within the bounds, two-hop routes over two pools or one",
     "tests use cw20 tokens with exact allowances; refunds and reuse of attached coins depend on the combination of tokens, hops and amounts",
     [S + "interface.rs", S + "entrypoints/common.rs", S + "entrypoints/execute.rs", S + "math/clamm.rs"],
     [("Asset::transfer / transfer_from", S + "interface.rs"), ("swap_internal / swap_route_internal", S + "entrypoints/common.rs"), ("swap_route", S + "entrypoints/execute.rs"), ("calculate_min_amount_out", S + "math/clamm.rs")])

prop("C11", "Pools are unique, canonical and created consistently",
     "A pool exists at most once per token pair and fee tier whatever the order of the tokens; different pools, ticks, tick chunks and positions never share a storage key, and a pool key decodes to itself. "
     "Anyone can create a pool, exactly for two different tokens, a registered fee tier, a valid tick and a price in that tick's interval; it starts empty at that price with the admin as fee receiver and never overwrites another. "
     "Positions and swaps need an existing pool.",
     ["inputs", "configurations"], "all token names within the length bound, fees, spacings, prices, indices and times for the listed initial ticks",
     "tests create a few pools with fixed names; key collisions and order dependence need particular names and numbers",
     [S + "storage/pool_key.rs", S + "storage/fee_tier.rs", S + "state.rs", S + "entrypoints/execute.rs", S + "storage/pool.rs"],
     [("PoolKey::new / key / from_bytes", S + "storage/pool_key.rs"), ("create_pool", S + "entrypoints/execute.rs"), ("tick_key / position_key / bitmap_key", S + "state.rs"), ("check_tick_to_sqrt_price_relationship", S + "math/types/sqrt_price.rs")],
     state=[("POOLS", "pools by canonical key", S + "state.rs")])
prop("C12", "Fees are shared exactly and never paid twice",
     "Every swap fee is split into the protocol's rounded-up share and a growth per unit of liquidity rounded down, so the positions in range together never earn more than was collected. "
     "A position earns exactly the growth inside its range since its last claim (modulo 2^128), crossing ticks never changes what a range has earned, and new ticks and positions start without past fees. "
     "Claiming pays exactly what is owed, resets it and changes nothing else; removing pays it together with the liquidity.",
     ["inputs", "histories"], "every fee, liquidity, growth, outside value, owed amount and protocol fee, price below, in and above the range",
     "tests compare a few fee amounts; wrap-around of growth values, the range side and rounding need particular values and histories",
     [S + "storage/pool.rs", S + "storage/position.rs", S + "storage/tick.rs", S + "math/types/fee_growth.rs", S + "entrypoints/execute.rs"],
     [("Pool::add_fee", S + "storage/pool.rs"), ("calculate_fee_growth_inside / from_fee / to_fee", S + "math/types/fee_growth.rs"), ("Tick::create / cross", S + "storage/tick.rs"), ("Position::update / claim_fee", S + "storage/position.rs")],
     state=[("fee_growth_global / fee_growth_outside", "fees per unit of liquidity, modulo 2^128", S + "storage/tick.rs")])

prop("C15", "Queries report exactly the stored state",
     "Every listing (positions, tokens, pools, pools of a pair, operators, position ticks) returns exactly the stored entries after its start or offset, in order, without gaps or duplicates, up to its limit, and never fails for any offset or limit. "
     "Lookups of a position, token, pool (in either token order), tick, fee tier or setting return exactly the stored item and fail only if it does not exist. "
     "Approvals and operators are reported exactly while valid, or all when expired ones are asked for.",
     ["inputs", "configurations"], "every offset, limit, start key, index, block and expiration over small symbolic states",
     "tests page through fixed lists with ordinary limits; boundaries, extreme limits and expirations need particular values",
     [S + "entrypoints/query.rs", S + "state.rs", S + "entrypoints/common.rs"],
     [("get_all_positions / get_pools", S + "state.rs"), ("query_all_approvals / query_all_tokens / get_position_ticks", S + "entrypoints/query.rs"), ("humanize_approvals", S + "entrypoints/common.rs")])
