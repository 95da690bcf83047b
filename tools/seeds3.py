import sys
from seedlib import seed as _seed
S = "controller/src/positions/supply.rs"; U = "controller/src/utils.rs"; L = "controller/src/lib.rs"; Q = "liquidity_layer/src/liquidity.rs"
P = "price_aggregator/src/utils.rs"; E = "controller/src/positions/emode.rs"; T = "controller/src/strategy.rs"; V = "controller/src/validation.rs"
Z = "liquidity_layer/src/utils.rs"; K = "liquidity_layer/src/cache/mod.rs"; Q2 = "controller/src/positions/liquidation.rs"; W = "controller/src/positions/withdraw.rs"


def seed(id, *a, **k):
    if not sys.argv[1:] or id in sys.argv[1:]:
        _seed(id, *a, **k)


seed("isolated-pair", "C10", [(S, "position_attributes.isolated_token() == *token_id,", "position_attributes.isolated_token() == *token_id || asset_info.is_isolated(),")], r'''
    let mut h = H::new();
    for t in ["ISA-123456", "ISB-123456"] {
        let mut m = mk(t, 18, WAD);
        m.isolated = true;
        m.ceiling = 1000 * WAD;
        h.market(&m);
    }
    h.market(&mk("USDC-123456", 6, WAD));
    let a = h.open(ALICE, "ISA-123456", 10 * WAD);
    check(h.ctrl(ALICE, "supply", vec![], &[(NFT, a, 1), ("ISA-123456", 0, WAD)]).is_ok(), "more of the isolated collateral");
    check(h.ctrl(ALICE, "supply", vec![], &[(NFT, a, 1), ("USDC-123456", 0, 1_000_000)]).is_err(), "no ordinary collateral beside it");
    check(h.ctrl(ALICE, "supply", vec![], &[(NFT, a, 1), ("ISB-123456", 0, WAD)]).is_err(), "no other isolated collateral beside it");
''', "an isolated account is supplied a second asset that is isolated too", "two isolated collaterals sit in one account")

seed("ltv-never-raised", "C24", [(S, "        if position.loan_to_value_bps != asset_info.loan_to_value_bps {\n            position.", "        if position.loan_to_value_bps > asset_info.loan_to_value_bps {\n            position.")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("USDC-123456", 6, WAD));
    h.open(CAROL, "USDC-123456", 1_000_000_000_000);
    let a = h.open(ALICE, "AAA-123456", 1000 * WAD);
    let y = || vec![1u8];
    h.ctrl(OWNER, "editAssetConfig", vec![s("AAA-123456"), n(7900), n(8500), n(500), n(1000), vec![], vec![], vec![], y(), n(50), y(), y(), vec![], vec![], vec![]], &[]).unwrap();
    h.ctrl(ALICE, "supply", vec![], &[(NFT, a, 1), ("AAA-123456", 0, WAD)]).unwrap();
    check(h.borrow(ALICE, a, "USDC-123456", 780_000_000).is_ok(), "a fresh deposit brings the position to the configured 79%");
''', "a deposit into an existing position after the owner raised the asset's loan-to-value", "the position keeps the old, lower loan-to-value")

seed("cap-at-debt-index", "C14", [(S, "                    &index.supply_index_ray,\n", "                    &index.borrow_index_ray,\n")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    let mut m = mk("USDC-123456", 6, WAD);
    m.scap = 2_000_000_000;
    let pool = h.market(&m);
    h.open(CAROL, "USDC-123456", 1_000_000_000);
    let a = h.open(ALICE, "AAA-123456", 10_000 * WAD);
    h.borrow(ALICE, a, "USDC-123456", 900_000_000).unwrap();
    h.later(31_536_000, &[("AAA", WAD), ("USDC", WAD)]);
    h.ctrl(BOB, "updateIndexes", vec![s("USDC-123456")], &[]).unwrap();
    let held = h.dview((&pool).into(), "suppliedAmount", vec![]).0;
    check(held > 1_000_000_000 && held < 1_900_000_000, "interest was earned");
    h.open(BOB, "USDC-123456", 2_000_000_000 - held);
    check(h.ctrl(BOB, "supply", vec![], &[("USDC-123456", 0, 1)]).is_err(), "nothing above the cap");
''', "a supply close under the cap in a market that has accrued interest", "the cap is held against a total that is worth more than what is supplied, so supplies the cap allows are refused")

seed("unsafe-isolated-withdraw", "C08", [(L, "        cache.allow_unsafe_price = borrow_positions.is_empty();", "        cache.allow_unsafe_price = borrow_positions.is_empty()\n            || account_attributes.is_isolated() && borrow_positions.len() == 1;")], r'''
    let mut h = H::new();
    let mut m = mk("ISA-123456", 18, WAD);
    m.isolated = true;
    m.ceiling = 1000 * WAD;
    h.market(&m);
    let mut m = mk("USDC-123456", 6, WAD);
    m.iso_borrow = true;
    h.market(&m);
    h.open(CAROL, "USDC-123456", 1_000_000_000_000);
    let a = h.open(ALICE, "ISA-123456", 100 * WAD);
    h.borrow(ALICE, a, "USDC-123456", 1_000_000).unwrap();
    check(h.withdraw(ALICE, a, "ISA-123456", WAD).is_ok(), "a withdrawal at an agreed price");
    h.mixed("ISA-123456", true);
    h.call(OWNER.into(), STUB.into(), "setSafe", vec![s("WEGLD-abcdef"), n(WAD / 10), n(1)], &[]).unwrap();
    check(h.withdraw(ALICE, a, "ISA-123456", WAD).is_err(), "no withdrawal by a borrower while the two price sources disagree");
''', "a withdrawal by an isolated account with exactly one debt while the price sources deviate beyond the last tolerance", "a borrower withdraws collateral at an unsafe price")

seed("emode-withdrawn-asset", "C12", [(E, "        require!(\n            asset_e_modes.contains(&e_mode_id),", "        require!(\n            asset_e_modes.contains(&e_mode_id) || asset_e_modes.is_empty(),"),
     (E, "        require!(\n            e_mode_assets.contains_key(token_id),\n            ERROR_EMODE_CATEGORY_NOT_FOUND\n        );\n", "")], r'''
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("BBB-123456", 18, WAD));
    h.market(&mk("USDC-123456", 6, WAD));
    h.ctrl(OWNER, "addEModeCategory", vec![n(9300), n(9500), n(100)], &[]).unwrap();
    h.ctrl(OWNER, "addEModeCategory", vec![n(9000), n(9500), n(100)], &[]).unwrap();
    h.ctrl(OWNER, "addAssetToEModeCategory", vec![s("AAA-123456"), n(1), n(1), n(1)], &[]).unwrap();
    h.ctrl(OWNER, "addAssetToEModeCategory", vec![s("USDC-123456"), n(2), n(1), n(1)], &[]).unwrap();
    h.ctrl(ALICE, "supply", vec![n(0), n(1)], &[("AAA-123456", 0, WAD)]).unwrap();
    let a = h.last();
    check(h.ctrl(ALICE, "supply", vec![], &[(NFT, a, 1), ("USDC-123456", 0, 1_000_000)]).is_err(), "no asset of another category");
    check(h.ctrl(ALICE, "supply", vec![], &[(NFT, a, 1), ("BBB-123456", 0, WAD)]).is_err(), "no asset that is in no category");
''', "an e-mode account is supplied an asset that belongs to no category at all", "the account holds an asset outside its category")
