from gen import na, prop

prop("X01", "Contracts agree on the calls and records they exchange",
     "Every call the contracts make to one another names an operation the other contract offers, with the same number, order and types of arguments "
     "and the same result. Every record read out of another contract's storage is kept there under that name, with the same fields in the same order.",
     ["inputs", "histories"], "every cross-contract call and storage read in the source",
     "No existing test deploys two of the contracts together, so a disagreement between the proxy and the contract compiles and passes.",
     ["common/proxies/src/proxy_pool.rs", "common/structs/src/model.rs", "controller/src/storage/mod.rs", "liquidity_layer/src/liquidity.rs",
      "liquidity_layer/src/storage/mod.rs", "price_aggregator/src/structs.rs"],
     [("calls between contracts", "common/proxies/src/"), ("records read across contracts", "controller/src/storage/mod.rs")])

prop("N01", "No history of operations extracts value through rounding",
     "Over any history of supplies, withdrawals, borrows, repayments and liquidations, what rounding gains an account in a pool stays below a "
     "negligible bound, so that the pool can always pay what it owes its depositors.",
     ["histories"], "every sequence of operations on a pool, of any length",
     "The drift of half-up rounding depends on how often and at which amounts and indexes operations happen; tests sample a few operations.",
     ["common/math/src/math.rs", "liquidity_layer/src/utils.rs", "liquidity_layer/src/liquidity.rs"],
     [("half-up rounding of scaled amounts", "common/math/src/math.rs"), ("conversions between amounts and shares", "liquidity_layer/src/utils.rs")])
na("N01", "The property bounds a sum of rounding errors over histories of unbounded length: that is a numeric invariant over runtime quantities "
          "(amounts, indexes, counts of operations). What a static argument settles - that every conversion is the declared half-up one, at the "
          "accrued index, exactly once, and that totals equal the sum of positions - is claimed as M01, P02 and P03.")

prop("N02", "Every operation on a full account fits in a transaction's gas",
     "An account holding as many positions as the configured limits allow can always be repaid, withdrawn from and liquidated within the gas limit of "
     "one transaction.",
     ["inputs", "configurations"], "every account within the position limits and every market configuration",
     "Tests run without the chain's gas schedule and on accounts with a few positions.",
     ["controller/src/positions/liquidation.rs", "controller/src/helpers/mod.rs", "controller/src/oracle/mod.rs"],
     [("loops over an account's positions", "controller/src/helpers/mod.rs"), ("prices read per position", "controller/src/oracle/mod.rs")])
na("N02", "Gas is charged per virtual-machine instruction and host call of the compiled contract under a schedule that is not in the repository; "
          "a static bound on loop rounds (which C22 gives: the position limits) does not translate into gas without it.")
