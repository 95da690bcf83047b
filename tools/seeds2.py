import sys
from seedlib import seed as _seed
L = "controller/src/lib.rs"; B = "controller/src/positions/borrow.rs"; S = "controller/src/strategy.rs"; Q = "controller/src/positions/liquidation.rs"
R = "controller/src/router.rs"; C = "controller/src/config.rs"; UA = "price_aggregator/src/utils.rs"; MA = "price_aggregator/src/median.rs"
AA = "price_aggregator/src/admin.rs"; O = "controller/src/oracle/mod.rs"; T = "controller/src/utils.rs"


def seed(id, *a, **k):
    if not sys.argv[1:] or id in sys.argv[1:]:
        _seed(id, *a, **k)


seed("threshold-shared-config", "C24", [(L, "        for account_nonce in account_nonces {\n            // Positions of different accounts", "") if 0 else
     (L, "            let mut account_asset_config = asset_config.clone();\n", ""),
     (L, "        for account_nonce in account_nonces {\n", "        let mut account_asset_config = asset_config.clone();\n        for account_nonce in account_nonces {\n")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("USDC-123456", 6, WAD));
    h.open(CAROL, "USDC-123456", 1_000_000_000_000);
    h.ctrl(OWNER, "addEModeCategory", vec![n(9300), n(9500), n(100)], &[]).unwrap();
    h.ctrl(OWNER, "addAssetToEModeCategory", vec![s("AAA-123456"), n(1), n(1), n(1)], &[]).unwrap();
    h.ctrl(OWNER, "addAssetToEModeCategory", vec![s("USDC-123456"), n(1), n(1), n(1)], &[]).unwrap();
    h.ctrl(ALICE, "supply", vec![n(0), n(1)], &[("AAA-123456", 0, 1000 * WAD)]).unwrap();
    let a = h.last();
    let b = h.open(BOB, "AAA-123456", 1000 * WAD);
    h.ctrl(OWNER, "updateAccountThreshold", vec![s("AAA-123456"), vec![], n(a as u128), n(b as u128)], &[]).unwrap();
    check(h.borrow(BOB, b, "USDC-123456", 740_000_000).is_ok(), "an ordinary account borrows up to 75%");
    check(h.borrow(BOB, b, "USDC-123456", 100_000_000).is_err(), "an ordinary account does not get the e-mode category's 93%");
''', "a parameter refresh naming an e-mode account before an ordinary one", "the ordinary account's positions are given the e-mode category's risk parameters", also=("C20",))

seed("silo-one-way", "C13", [(B, "if first_asset_config.is_siloed_borrowing() || asset_config.is_siloed_borrowing() {", "if first_asset_config.is_siloed_borrowing() {")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("USDC-123456", 6, WAD));
    let mut m = mk("SIL-123456", 6, WAD);
    m.siloed = true;
    h.market(&m);
    h.open(CAROL, "USDC-123456", 1_000_000_000_000);
    h.open(CAROL, "SIL-123456", 1_000_000_000_000);
    let a = h.open(ALICE, "AAA-123456", 1000 * WAD);
    h.borrow(ALICE, a, "SIL-123456", 100_000_000).unwrap();
    check(h.borrow(ALICE, a, "SIL-123456", 1_000_000).is_ok(), "a siloed debt can grow");
    check(h.borrow(ALICE, a, "USDC-123456", 100_000_000).is_err(), "nothing beside a siloed debt");
    let b = h.open(BOB, "AAA-123456", 1000 * WAD);
    h.borrow(BOB, b, "USDC-123456", 100_000_000).unwrap();
    check(h.borrow(BOB, b, "SIL-123456", 100_000_000).is_err(), "no siloed debt beside another one");
''', "an account that already has an ordinary debt borrows a siloed asset", "the siloed debt sits next to another debt")

seed("router-last-transfer", "C21", [(S, "                target_token_result.amount += &payment.amount;", "                target_token_result.amount = payment.amount.clone();")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("BBB-123456", 18, WAD));
    let a = h.open(ALICE, "AAA-123456", 1000 * WAD);
    let out = |v: &[(&str, u128)]| pack(v.iter().flat_map(|(t, x)| vec![s(t), n(*x)]).collect());
    let steps = out(&[("BBB-123456", 60 * WAD), ("BBB-123456", 39 * WAD)]);
    h.ctrl(ALICE, "swapCollateral", vec![s("AAA-123456"), n(100 * WAD), s("BBB-123456"), steps], &[(NFT, a, 1)]).unwrap();
    let got = h.dview(CTRL.into(), "getCollateralAmountForToken", vec![n(a as u128), s("BBB-123456")]).0;
    check(got == 99 * WAD, &format!("both transfers from the router are supplied, got {got}"));
''', "a swap route that pays the wanted token out in two transfers", "only the last transfer is used for the account; the rest stays in the controller")

seed("bad-debt-keeps-deposits", "C28", [(Q, "        self.positions(account_nonce, AccountPositionType::Deposit)\n            .clear();", "        if self.positions(account_nonce, AccountPositionType::Deposit).len() > 1 {\n            self.positions(account_nonce, AccountPositionType::Deposit)\n                .clear();\n        }")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("USDC-123456", 6, WAD));
    h.open(CAROL, "USDC-123456", 1_000_000_000_000);
    let a = h.open(ALICE, "AAA-123456", 10 * WAD);
    h.borrow(ALICE, a, "USDC-123456", 7_000_000).unwrap();
    h.later(60, &[("AAA", WAD / 10), ("USDC", WAD)]);
    h.ctrl(BOB, "cleanBadDebt", vec![n(a as u128)], &[]).unwrap();
    let left = h.view(CTRL.into(), "getPositions", vec![n(a as u128), n(1)]);
    check(left.is_empty(), "the seized deposit is no longer the account's");
''', "bad-debt clean-up of an account with exactly one deposit", "the seized deposit stays with the account although the pool booked it as revenue")

seed("dust-revenue-kept", "C34", [(R, "if revenue.amount > 0 {", "if revenue.amount > 1 {")], r'''
    let mut h = H::new();
    let mut m = mk("TIC-123456", 0, WAD);
    m.flash_fee = 0;
    let _pool = h.market(&m);
    h.open(CAROL, "TIC-123456", 1_000_000);
    let r = |x: u128| vec![s("TIC-123456"), n(100), ad(&STUB.to_managed_address()), s("receive"), pack(vec![n(x)])];
    h.ctrl(ALICE, "flashLoan", r(1), &[]).unwrap();
    let b0 = h.bal(STUB.into(), "TIC-123456");
    h.ctrl(BOB, "claimRevenue", vec![s("TIC-123456")], &[]).unwrap();
    let b1 = h.bal(STUB.into(), "TIC-123456");
    check(b1 - b0 == 1, &format!("one unit of revenue reaches the accumulator, got {}", b1 - b0));
''', "a claim when exactly one unit of revenue has built up", "the pool pays the unit out and burns its share, and the controller keeps it")

seed("emode-flag-left", "C35", [(C, "        if asset_e_modes.is_empty() {", "        if asset_e_modes.is_empty() && e_mode_assets.is_empty() {")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("BBB-123456", 18, WAD));
    h.ctrl(OWNER, "addEModeCategory", vec![n(9300), n(9500), n(100)], &[]).unwrap();
    for t in ["AAA-123456", "BBB-123456"] {
        h.ctrl(OWNER, "addAssetToEModeCategory", vec![s(t), n(1), n(1), n(1)], &[]).unwrap();
    }
    h.ctrl(OWNER, "removeAssetFromEModeCategory", vec![s("AAA-123456"), n(1)], &[]).unwrap();
    let on = h.asset_emode("AAA-123456");
    check(!on, "an asset in no category is not flagged for e-mode");
''', "an asset removed from its last category while that category still has another asset", "the asset stays flagged as e-mode although it belongs to no category")

seed("stale-round-kept", "A02", [(UA, "            submissions.clear();\n            first_sub_time_mapper.set(current_timestamp);", "            first_sub_time_mapper.set(current_timestamp);")], r'''
    let mut h = H::new();
    let agg = AGG2;
    h.deploy_aggregator(agg, 3, &ORACLES);
    h.call(OWNER.into(), agg.into(), "unpause", vec![], &[]).unwrap();
    let sub = |h: &mut H, o: usize, p: u128| {
        let t = h.now;
        h.call(ORACLES[o].into(), agg.into(), "submit", vec![s("AAA"), s("USD"), n(t as u128), n(p)], &[]).unwrap()
    };
    sub(&mut h, 0, 1);
    sub(&mut h, 1, 1);
    let t = h.now + 3600;
    h.time(t);
    sub(&mut h, 2, 900);
    sub(&mut h, 3, 900);
    let r = h.call(OWNER.into(), agg.into(), "latestPriceFeed", vec![s("AAA"), s("USD")], &[]);
    check(r.is_err(), "two fresh submissions of three do not close a round");
    sub(&mut h, 4, 900);
    let r = h.call(OWNER.into(), agg.into(), "latestPriceFeed", vec![s("AAA"), s("USD")], &[]).unwrap();
    check(r[0].ends_with(&[3, 132]), "the price is the median of the fresh submissions");
''', "a submission more than thirty minutes after the round's first one", "the dropped round's old prices stay and count towards the next published price", also=("A03",))

seed("oracle-removal-count", "A04", [(AA, "            let _ = oracle_mapper.remove(&oracle);\n        }\n\n        self.set_submission_count(submission_count);", "            let _ = oracle_mapper.remove(&oracle);\n        }\n\n        if submission_count != self.submission_count().get() {\n            self.set_submission_count(submission_count);\n        }")], r'''
    let mut h = H::new();
    let agg = AGG2;
    h.deploy_aggregator(agg, 1, &ORACLES[..2]);
    check(h.call(OWNER.into(), agg.into(), "removeOracles", vec![n(1), ad(&ORACLES[0].to_managed_address())], &[]).is_ok(), "one oracle of two can go");
    check(h.call(OWNER.into(), agg.into(), "removeOracles", vec![n(1), ad(&ORACLES[1].to_managed_address())], &[]).is_err(), "the last oracle cannot go while one price is required");
    check(h.call(OWNER.into(), agg.into(), "removeOracles", vec![n(0), ad(&ORACLES[1].to_managed_address())], &[]).is_err(), "no count of zero");
''', "a removal that keeps the required number as it is", "no registered oracle is left to meet the required number")

seed("bulk-borrow-ltv", "C07", [(L, "let is_bulk_borrow = borrowed_tokens.len() > 1;", "let is_bulk_borrow = borrowed_tokens.len() > 2;")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("USDC-123456", 6, WAD));
    h.market(&mk("BBB-123456", 6, WAD));
    h.open(CAROL, "USDC-123456", 1_000_000_000_000);
    h.open(CAROL, "BBB-123456", 1_000_000_000_000);
    let a = h.open(ALICE, "AAA-123456", 1000 * WAD);
    check(h.ctrl(ALICE, "borrow", vec![pay("USDC-123456", 300_000_000), pay("BBB-123456", 300_000_000)], &[(NFT, a, 1)]).is_ok(), "600 of 750 in two tokens");
    let b = h.open(BOB, "AAA-123456", 1000 * WAD);
    check(h.ctrl(BOB, "borrow", vec![pay("USDC-123456", 700_000_000), pay("BBB-123456", 700_000_000)], &[(NFT, b, 1)]).is_err(), "not 1400 of 750 in two tokens");
''', "one borrow request naming exactly two tokens", "the second token's loan-to-value check ignores the first token's new debt")

seed("router-leftover-kept", "C21", [(S, "            } else {\n                // Collect non-target tokens for refund to caller\n", "            } else if payment.token_identifier != *from_token {\n                // Collect non-target tokens for refund to caller\n")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("BBB-123456", 18, WAD));
    let a = h.open(ALICE, "AAA-123456", 1000 * WAD);
    let b0 = h.bal(ALICE.into(), "AAA-123456");
    let steps = pack(vec![s("BBB-123456"), n(90 * WAD), s("AAA-123456"), n(10 * WAD)]);
    h.ctrl(ALICE, "swapCollateral", vec![s("AAA-123456"), n(100 * WAD), s("BBB-123456"), steps], &[(NFT, a, 1)]).unwrap();
    let b1 = h.bal(ALICE.into(), "AAA-123456");
    check(b1 - b0 == 10 * WAD, &format!("what the router gave back is returned, got {}", b1 - b0));
''', "a swap route that does not use up the token sent and returns some of it", "the unused part stays in the controller instead of going back to the caller")
