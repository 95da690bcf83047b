from gen import prop
C = "controller/src/"
LIB, VAL, STR, ROU, CFG, UTL = (C + x + ".rs" for x in ("lib", "validation", "strategy", "router", "config", "utils"))
ACC, BOR, EMO, LIQ, REP, SUP, UPD, WIT = (C + "positions/" + x + ".rs" for x in
                                          ("account", "borrow", "emode", "liquidation", "repay", "supply", "update", "withdraw"))
ORA, HLP = C + "oracle/mod.rs", C + "helpers/mod.rs"
I, IH = ["inputs"], ["inputs", "histories"]
NT = "No existing test calls a controller entry point: the passing tests cover only arithmetic helpers and flag encodings."
ANY = "every controller entry point, any caller, arguments, payments and stored state"

prop("C01", "While paused, no user operation completes or has any effect",
     "Every user-facing controller operation (supply, borrow, withdraw, repay, liquidate, flash loan, index refresh, bad-debt clean-up, "
     "threshold refresh and the strategy operations) fails while the contract is paused. A code upgrade leaves it paused.",
     IH, ANY, NT, [LIB, STR, ROU], [("pause guard of each operation", LIB + ", " + STR)])
prop("C02", "No user operation can run while a flash loan is in progress",
     "The in-progress flag is raised before a flash-loan borrower is called and lowered only when the loan has completed. "
     "While it is raised every user-facing operation of the controller fails, and nothing else changes it.",
     ["inputs", "programs", "histories"], ANY, "Reentrancy depends on code the tests do not contain. " + NT, [LIB, STR, VAL],
     [("reentrancy guard", VAL), ("flash loan flag", LIB)])
prop("C03", "Administration of the controller is reserved to its owner",
     "Every controller operation that is not one of the user operations and that changes stored state, moves tokens or calls another "
     "contract succeeds only for the contract's owner.", I, ANY, NT, [LIB, ROU, CFG], [("owner-only endpoints", ROU + ", " + CFG)])
prop("C04", "Only the holder of an account's NFT can operate that account",
     "Borrowing, withdrawing and the strategies act only on the account whose NFT the caller sent along (of the right collection, "
     "of an active account, with the attributes recorded for it) or on one created in the same call. Operations open to anyone "
     "(supply to, repay for, liquidate, clean up, re-rate) require the account to be active.",
     IH, ANY, NT, [ACC, VAL, LIB, STR], [("account validation", VAL + ", " + ACC)])
prop("C05", "An account NFT is returned or burnt; burnt exactly when its account is empty",
     "An account NFT sent along goes back to its sender on every success, except when the account has neither supply nor debt left: then it "
     "is burnt and the account dropped from the records. A new account's NFT goes to the caller and is recorded active with the attributes "
     "it was minted with.", IH, ANY, NT, [ACC, WIT, STR], [("account lifecycle", ACC + ", " + WIT)])
prop("C06", "No account holder can leave an account below its liquidation threshold",
     "Withdrawing collateral, swapping collateral or debt, and opening a leveraged position succeed only if afterwards the account "
     "has no debt or the liquidation-threshold-weighted value of its collateral, at current indexes and prices, is at least the value of its debt.",
     IH, ANY, NT, [VAL, HLP, WIT, STR], [("health validation", VAL), ("health factor", HLP)])
prop("C07", "Borrowing never exceeds the account's loan-to-value limit",
     "Each borrow succeeds only if the LTV-weighted value of the account's collateral is at least the value of all its debts, including "
     "those taken earlier in the same call, plus the new amount, all at current indexes and prices.",
     IH, ANY, NT, [BOR, VAL, HLP], [("LTV validation", BOR)])
prop("C08", "Operations that put cover at stake refuse unsafe or stale-cached prices",
     "Borrowing, liquidating, clean-up, threshold refresh, strategies and withdrawals of an account with debt read every price "
     "with prices out of tolerance refused. Unsafe prices are accepted only by operations that can leave no account short of cover, and health "
     "after a swap is judged on prices read after it.",
     IH, ANY, NT, [LIB, STR, ORA, C + "cache/mod.rs"], [("allow_unsafe_price of each operation's cache", LIB + ", " + STR)])
prop("C09", "Only assets that are collateral for the account can be supplied",
     "Each supply succeeds only for an asset that has a market, with a positive amount, and that is enabled as collateral in the account's "
     "effective configuration (its e-mode category's entry if it has one, else the asset's own).",
     IH, ANY, NT, [SUP, VAL, EMO], [("collateral admission", SUP), ("e-mode override", EMO)])
prop("C10", "Isolated collateral is never mixed with other collateral or e-mode",
     "An isolated account accepts supplies of its isolated asset only, a regular account accepts no isolated asset, and an isolated "
     "asset is never supplied in an e-mode.", IH, ANY, NT, [SUP, EMO, ACC], [("isolation checks", SUP)])
prop("C11", "Only assets borrowable for the account can be borrowed",
     "Each borrow succeeds only for an asset that has a market and is borrowable in the account's effective configuration. An isolated "
     "account borrows only assets enabled for isolation, and an isolated asset is not borrowed in an e-mode.",
     IH, ANY, NT, [BOR, EMO], [("borrow admission", BOR)])
prop("C12", "In e-mode, only live categories and their own assets can be used",
     "Each supply or borrow by an account in an e-mode succeeds only if the category exists, is not deprecated and lists the asset. "
     "Its risk parameters are refreshed for an asset only under the same conditions.",
     IH, ANY, NT, [EMO, SUP, BOR], [("e-mode validation", EMO)])
prop("C13", "A siloed debt is an account's only debt",
     "A siloed asset is borrowed only by an account with no debt or with debt in that same asset only, and an account whose debt is "
     "siloed borrows no other asset.", IH, ANY, NT, [BOR], [("siloed validation", BOR)])
prop("C14", "Supplies respect the asset's supply cap",
     "Each supply succeeds only if no supply cap is configured or everything supplied to the market, at the current index, plus the "
     "new amount is within the cap.", IH, ANY, NT, [SUP], [("supply cap", SUP)])
prop("C15", "Borrows respect the asset's borrow cap",
     "Each borrow, strategies included, succeeds only if no borrow cap is configured or everything borrowed from the market, at the "
     "current index, plus the new amount is within the cap.", IH, ANY, NT, [BOR, STR], [("borrow cap", BOR)])
prop("C16", "Isolated borrowing stays under its collateral's debt ceiling",
     "Each borrow by an isolated account succeeds only if the debt tracked in dollars against its collateral plus the borrowed dollar value "
     "is within the collateral's debt ceiling, and that sum is recorded as the new tracked debt.",
     IH, ANY, NT, [BOR, UTL], [("debt ceiling", BOR), ("tracker", UTL)])
prop("C17", "Isolated debt tracking falls by what is repaid and never below zero",
     "Each repayment or bad-debt write-off of an isolated account lowers its collateral's tracked debt by the dollar value of the debt it "
     "removes (at most the outstanding debt). The tracker stops at zero, clears a remainder under one dollar, and "
     "changes in no other way but by borrowing.", IH, ANY, NT, [REP, LIQ, STR, UTL], [("tracker", UTL), ("repayments", REP)])
prop("C18", "The controller's record of a position is what its pool returned",
     "After a pool changes a position, the account's entry for that side and asset is the position the pool returned, and it is dropped exactly "
     "when that position is empty. Positions handed to a pool are the recorded ones (a new one starts empty), and nothing else changes "
     "them except a threshold refresh, which changes risk parameters only.",
     IH, ANY, NT, [UPD, SUP, BOR, WIT, REP, LIQ, STR], [("position store", UPD)])
prop("C19", "Each position is handled by its own asset's pool, price and tokens",
     "A position's pool operation goes to the pool registered for its asset, is valued at that asset's price and carries only that asset. "
     "What it pays out goes to the caller, or to the controller itself within a strategy.",
     IH, ANY, NT, [SUP, BOR, WIT, REP, LIQ, STR], [("pool calls", SUP + ", " + BOR + ", " + REP + ", " + WIT)])
prop("C20", "Every payment and request is executed once, in full and for its owner",
     "supply and repay hand each token payment received (the account token aside) to its pool exactly once and in full; borrow and withdraw "
     "ask for exactly each requested asset and amount once, paid to the caller.",
     IH, ANY, NT, [LIB, SUP, BOR, WIT, REP], [("payment loops", LIB)])
prop("C21", "Strategies use all they swap for the account and return what is left",
     "A strategy swaps exactly what it borrowed or withdrew plus the initial payment, at the configured swap router only. Everything the swap "
     "returns in the wanted token is supplied or repaid on the account, and any other token goes back to the caller.",
     IH, ANY, NT, [STR], [("strategy flows", STR)])
prop("C22", "An account never holds more positions than the configured limit",
     "Each operation that can open positions succeeds only if the number of positions on that side afterwards is within the configured limit.",
     IH, ANY, NT, [VAL, SUP, LIB, STR], [("position limits", VAL)])
prop("C23", "Flash loans and strategy borrows are admitted and charged as configured",
     "A flash loan is lent only for an asset that allows it, with a positive amount, to a contract on this shard and a real endpoint, at the "
     "asset's configured fee and from its own pool. A strategy borrow is charged exactly the asset's configured flash fee.",
     IH, ANY, NT, [LIB, STR, VAL], [("flash loan", LIB), ("strategy fee", STR)])
prop("C24", "Positions carry the configured risk parameters",
     "A supply gives the position the account's currently configured loan-to-value, bonus and fee, and a new position the configured threshold; "
     "an existing threshold stays. A refresh changes the threshold only if asked to and only if the account keeps a health factor of at "
     "least 1.05, and otherwise the other three only.",
     IH, ANY, NT, [SUP, EMO, HLP], [("risk parameter writes", SUP)])
prop("C25", "Only an account below its liquidation threshold can be liquidated",
     "Every repayment and seizure of a liquidation is made only if, on the recorded positions at current indexes and safe prices, the account "
     "owes something and its liquidation-threshold-weighted collateral is worth less than its debt.", IH, ANY, NT, [LIQ, HLP], [("liquidation gate", LIQ)])
prop("C26", "Liquidation payments are repaid or refunded in full, and count once",
     "Every token paid into a liquidation is either repaid on a debt in that token or returned to the caller. A payment counts for its value, at "
     "most the debt in that token that earlier payments left unpaid. What counts for more than the liquidation's limit is returned.",
     IH, ANY, NT, [LIQ], [("payment loop", LIQ), ("excess", LIQ)])
prop("C27", "Liquidators seize what they paid for plus the bonus, and no more",
     "From each deposit of the account a liquidation pays out that deposit's share of the repaid value (at most the limit that restores the "
     "target health factor) plus the bonus grown from the account's average bonus up to 15%, at most the deposit itself. The protocol fee "
     "is the configured share of the bonus, and nothing is seized for nothing.", IH, ANY, NT, [LIQ, HLP], [("seizure", LIQ), ("recipe", HLP)])
prop("C28", "Bad-debt clean-up takes insolvent dust accounts only, and takes everything",
     "Only cleanBadDebt writes positions off. It requires the account's debt in dollars to exceed its collateral and that collateral to be at "
     "most 5 dollars, writes off every deposit and debt of the account, and removes the account.", IH, ANY, NT, [LIQ], [("clean-up", LIQ)])
prop("C29", "Strategies only start under their admission rules",
     "A leveraged position needs two different assets and an account opened for leverage. A debt swap needs two different, non-siloed debts; a "
     "collateral swap two different assets, neither account nor new asset isolated. Closing an account through debt repayment pays "
     "every remaining deposit out in full, and only with no debt left.", IH, ANY, NT, [STR], [("strategy admission", STR)])
prop("C30", "Token prices follow the configured sources and refuse large deviations",
     "A token's price is one for EGLD, the exchange rate for derived tokens, the manipulation-resistant formula for LP tokens, and otherwise the "
     "aggregator's, the exchange's 15-minute average, or both combined. When the two sources lie outside the outer tolerance no price is "
     "given unless the operation allows unsafe prices.", IH, "any token, configuration, feed and pair state", NT, [ORA], [("token price", ORA)])
prop("C31", "Aggregator prices are used only when live and fresh",
     "A price is taken from the aggregator only if one is set and not paused, has a dollar price for that ticker on record, and that price is "
     "younger than the configured age, unless unsafe prices are allowed. EGLD's dollar rate never gets that exemption.",
     IH, "any ticker, age and aggregator state", NT, [ORA, "controller/src/cache/mod.rs"], [("feed checks", ORA)])
prop("C32", "Cached lookups within a transaction only repeat stored values",
     "What a transaction caches about an asset (its configuration, pool, oracle, index or price) is the value stored for that very asset, and "
     "only the lookup functions write the cache.", IH, "any sequence of lookups", NT, ["controller/src/cache/mod.rs", ORA],
     [("cache", "controller/src/cache/mod.rs")])
prop("C33", "A market is created once, from the template, exactly as given",
     "Creating a market needs a valid token without one, a template, and a liquidation threshold above the loan-to-value. The pool deployed, its "
     "address on record, the asset's configuration and its empty isolated-debt tracker hold exactly what was given, and a market's pool never "
     "changes afterwards.", IH, ANY, NT, [ROU], [("market creation", ROU)])
prop("C34", "Revenue and rewards travel in full between each pool and its counterpart",
     "Claiming revenue asks every named asset's own pool, at that asset's price, and deposits all it returns with the configured accumulator. "
     "A reward is forwarded in full to the pool of the asset paid. Parameter changes and upgrades reach that market's own pool, in order.",
     IH, ANY, NT, [ROU], [("revenue and rewards", ROU)])
prop("C35", "E-mode categories, their assets and the assets' flags stay consistent",
     "A category gets a new number, its table of assets and each asset's set of categories change together, and an asset's e-mode flag is on "
     "exactly while it has a category. Removing a category takes all its assets out and marks it deprecated, keeping its parameters.",
     IH, ANY, NT, [CFG], [("e-mode administration", CFG)])
prop("C36", "Configuration changes are validated and store exactly what was given",
     "Risk parameters keep the threshold above the loan-to-value (or both zero), addresses are those of contracts, oracle tolerances lie in their "
     "ranges with bounds 1+t and 1/(1+t), and an oracle is set once. Each change stores what was given, keeps the rest, and nothing else "
     "changes configuration.", IH, ANY, NT, [CFG, ROU, HLP, LIB], [("configuration", CFG), ("tolerances", HLP)])
prop("C37", "The controller announces exactly what it stored",
     "Every change of an asset's configuration, an oracle, an e-mode table or an isolated-debt tracker is announced with the entry and value stored. "
     "Every position changed is announced as it was left, with the amount moved, at the asset's current index and price, and nothing else is announced as such. A leveraged position's opening payment is announced with its USD value.",
     IH, ANY, NT, [CFG, ROU, UTL, UPD, "common/events/src/events.rs"], [("events", "common/events/src/events.rs")])
prop("C38", "Account and market views report the figures operations enforce",
     "The health factor, liquidatability, totals, token amounts, prices and market indexes shown are those operations compute from the stored "
     "positions, current indexes and prices (unsafe prices allowed). A liquidation estimate equals what liquidating that account with those payments does.",
     IH, ANY, NT, ["controller/src/views.rs", LIQ, HLP], [("views", "controller/src/views.rs")])
