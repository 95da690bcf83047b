from gen import prop
L, U, RT = "liquidity_layer/src/liquidity.rs", "liquidity_layer/src/utils.rs", "common/rates/src/rates.rs"
IH = ["inputs", "histories"]
NT = "No existing test executes a pool operation: the passing tests cover only the arithmetic helpers and flag encodings."

prop("P01", "Every pool operation starts from fully accrued interest",
     "Whenever a pool operation that touches funds or accounting succeeds, interest for the whole elapsed time has been added to "
     "both indexes before the operation's own amounts are computed, and the accrued indexes and the new timestamp are what is "
     "saved. Before a flash loan hands control to a borrower, the accrued state is already saved.",
     IH, "every state-changing pool operation, any stored state, any elapsed time, any arguments", NT, [L, U],
     [("interest synchronisation at the start of each operation", L + " and " + U)])
prop("P02", "Pool totals always equal the sum of positions plus protocol share",
     "Each successful pool operation changes the total supplied amount by exactly what it adds to or removes from the supply "
     "position plus the protocol's share, and the total borrowed amount by exactly what it adds to or removes from the debt "
     "position. Hence the totals stay equal to the sum over positions plus the protocol's share after any history.",
     IH, "every pool operation, any position, amount, stored state and elapsed time", NT, [L, U],
     [("scaled totals updated with the same scaled amount as the position", L)])
prop("P03", "Deposits and debts convert at the accrued index, half-up, never twice",
     "Supplying, borrowing, repaying and withdrawing change the position by the amount divided by the accrued index of that side, "
     "rounded half up at 27 decimals. A request that covers the whole position removes exactly the whole scaled balance, and pays "
     "or consumes exactly the position's current value.",
     IH, "any amount, position, index and asset precision", NT, [L, U],
     [("scaled amount computation", U), ("full versus partial determination", L)])
prop("P04", "The pool never pays out more than it holds of its asset",
     "Any operation that sends tokens out of a pool succeeds only if the amount is at most the pool's own current balance of its "
     "asset, or comes out of the payment just received.", IH,
     "every outgoing transfer of every pool operation, any balance and request", NT, [L, U],
     [("reserve check before each transfer", L)])
prop("P05", "Pool operations pay exactly the right amount to the right recipient, once",
     "A borrow pays the borrowed amount to the borrower; a withdrawal pays the withdrawn value (less the liquidation fee when "
     "liquidating) to the withdrawing party; a repayment returns exactly the excess over the debt to the payer; flash loans and "
     "leveraged borrows pay the requested amount. No other pool operation sends any tokens, apart from a revenue claim.",
     IH, "every pool operation and outgoing transfer, all inputs and states", NT, [L, U],
     [("transfers", L)])
prop("P06", "Pool operations change nothing but their own accounting entries",
     "Accounting entries an operation has no business with keep exactly their accrued value; in particular no operation other than "
     "the write-off, the reward top-up and interest accrual moves the supply index. Views change nothing and send nothing.",
     IH, "every pool operation and view and every stored entry", NT, [L, U, "liquidity_layer/src/view.rs"],
     [("cached state committed at the end of each operation", "liquidity_layer/src/cache")])
prop("P07", "A flash loan succeeds only if principal plus fee came back in the pool's asset",
     "A pool flash loan completes only if the borrower's call returned exactly one payment, in the pool's asset, of at least the "
     "lent amount plus the fee. Everything received beyond the principal becomes protocol revenue, and anything that happened in "
     "the pool during the borrower's call is preserved.",
     ["inputs", "programs", "histories"], "any borrower code, amount, fee and stored state", NT, [L],
     [("returned payment check and revenue booking", L)])
prop("P08", "Only the lending controller can operate a pool",
     "Every pool operation that changes stored state, moves tokens or calls out succeeds only when the caller is the pool's owner "
     "(the controller contract).", ["inputs"], "every exported pool operation and any caller",
     "Access control has to hold for each exported operation and any caller; no test calls any.", ["liquidity_layer/src/lib.rs", L, U],
     [("owner-only operations", L + ", " + U)])
prop("P09", "A pool only accepts payments and positions in its own asset",
     "A pool operation on a position or on an incoming payment fails unless the position and the payment are in the pool's own "
     "asset; operations that take no payment reject one.", ["inputs"],
     "every pool operation, any payment and position", NT, [L, U], [("asset checks", L)])
prop("P10", "Interest accrual splits borrowers' interest between suppliers and protocol",
     "Bringing a market up to date multiplies the borrow index by the compounded rate for the elapsed time; the resulting growth of "
     "total debt is split by the reserve factor between protocol revenue and suppliers, and suppliers get theirs through a growth "
     "of the supply index. With no elapsed time, or nothing supplied, nothing is created.",
     IH, "any stored market state, parameters and elapsed time", NT, [U, RT],
     [("market accrual", U), ("index and reward computations", RT)])
prop("P11", "Borrow and deposit rates follow the configured utilisation curve",
     "The borrow rate is the three-slope curve through the base rate with kinks at the two configured utilisation points, capped at "
     "the configured maximum and converted to a per-millisecond rate. The deposit rate is utilisation times borrow rate times what "
     "the reserve factor leaves.", ["inputs", "configurations"], "any utilisation and any market parameters",
     "The formula must hold at every utilisation and parameter set; no test evaluates a rate.", [RT],
     [("rate curve", RT)])
prop("P12", "Compounding follows the fifth-order series of e^(rate*time)",
     "The interest factor for an elapsed time is one plus the first five terms of the exponential series in rate times time, each "
     "term rounded half up at 27 decimals, and it is exactly one when no time elapsed.", ["inputs"], "any rate and elapsed time",
     "No test evaluates the interest factor.", [RT], [("compounded interest", RT)])
prop("P13", "The controller's index projection equals what the pool would commit",
     "At any moment, the indexes the controller derives read-only from a pool's stored state (used for valuing positions) equal the "
     "indexes the pool itself would save if it were brought up to date at that moment.", IH,
     "any pool state and time", "Two implementations in two contracts must agree for all states; tests run neither.",
     ["controller/src/oracle/mod.rs", U, RT], [("read-only projection", "controller/src/oracle/mod.rs"), ("pool accrual", U)])
prop("P14", "A pool never runs with a broken interest-rate configuration",
     "Creating a market or changing its curve succeeds only if the maximum rate exceeds the base rate, the optimal utilisation lies "
     "strictly between the mid utilisation and 100%, and the reserve factor is below 100%; the values checked are the values "
     "stored. A parameter change first accrues interest under the old parameters, and a new market starts with both indexes at one "
     "and all totals zero.", ["inputs", "configurations"], "any proposed parameters", NT,
     ["liquidity_layer/src/lib.rs", U], [("parameter validation", "liquidity_layer/src/lib.rs, liquidity_layer/src/utils.rs")])
prop("P15", "A bad-debt write-off takes exactly the debt from suppliers, never more",
     "Writing off a debt position removes exactly that debt from the total borrowed and lowers the supply index by the factor "
     "(value minus the written-off debt) over value, where the loss is capped at the suppliers' total value and the index never "
     "drops below 1e-27. The seized position ends empty, and no other operation lowers the supply index.",
     IH, "any market state and debt", NT, [L, U], [("bad-debt socialisation", U), ("position seizure", L)])
prop("P16", "Claiming protocol revenue pays out and burns exactly the matching share",
     "A revenue claim pays the smaller of the pool's balance and the value of the protocol's share, and burns the matching part of "
     "the share from both the protocol's share and the total supplied: all of it for a full payout, pro rata otherwise. The payment "
     "reported to the caller is the one that was sent.", IH, "any balance, revenue and index", NT, [L],
     [("revenue claim", L)])
prop("P17", "A reward top-up raises suppliers' claims pro rata by exactly the paid amount",
     "Rewards added to a pool raise the supply index by the factor (value + rewards) over value, so that suppliers' total claim grows "
     "by the paid amount, and change neither the scaled totals nor the protocol's share.", IH, "any market state and reward", NT,
     [L, U], [("reward distribution", U)])
prop("P18", "Every fee the pool withholds becomes protocol revenue",
     "A liquidation fee withheld from a withdrawal and the up-front fee of a leveraged borrow increase the protocol's share and the "
     "total supplied by the fee divided by the supply index; operations without a fee leave the protocol's share at its accrued "
     "value.", IH, "any fee, amount, index", NT, [L, U], [("fee booking", U)])
prop("P19", "Announced market state equals the saved market state",
     "Each successful pool operation that changes the market announces indexes, totals, protocol share, timestamp and asset price "
     "exactly once, and the announced figures are the ones saved and the price is the one given.", IH,
     "every pool operation, any input and state", NT, [L, "common/events/src/events.rs"], [("market state event", L)])
prop("P20", "Published pool figures equal the accounting they describe",
     "Utilisation, rates, reserves, supplied, borrowed and revenue amounts published by a pool are the specified functions of its "
     "stored state.", IH, "every published pool figure and any stored state", NT, ["liquidity_layer/src/view.rs"],
     [("views", "liquidity_layer/src/view.rs")])
prop("P21", "The pool returns the very position it was given, changed only in its amount",
     "A pool operation on a position returns a position with the same side, asset, owning account and risk parameters as the one it "
     "was given; only the scaled amount changes.", ["inputs"], "every pool operation and any position", NT, [L],
     [("position returned by each operation", L)])
prop("M01", "Fixed-point multiply, divide and rescale round half up exactly",
     "Multiplying, dividing and changing the precision of fixed-point values yields the exact result rounded half up at the requested "
     "precision (away from zero for negative values), for all operands and all precisions used by the protocol.",
     ["inputs"], "any operands at each pair of precisions", "Tests sample a few operands.", ["common/math/src/math.rs"],
     [("half-up arithmetic", "common/math/src/math.rs")])
prop("M02", "Stored amounts keep one fixed precision per kind",
     "Every scaled balance, index, share, isolated-debt figure and basis-point parameter is stored with the one precision its kind "
     "prescribes (27 decimals for balances and indexes, 18 for isolated debt in USD, 4 for basis points), on every path, including "
     "market creation.", IH, "every write of every operation of every contract", NT,
     ["liquidity_layer/src", "controller/src", "common/constants/src/constants.rs"],
     [("precision constants", "common/constants/src/constants.rs"), ("market creation", "controller/src/router.rs")])
