from seedlib import seed
LQ="liquidity_layer/src/liquidity.rs"; UT="liquidity_layer/src/utils.rs"
seed("flash-surplus","P07",[(LQ,"let protocol_fee = repayment - amount.clone();","let protocol_fee = self.min(repayment, required_repayment) - amount.clone();")],r'''
    let mut h = H::new();
    let pool = h.market(&mk("AAA-123456", 18, WAD));
    h.open(CAROL, "AAA-123456", 1000 * WAD);
    let r0 = h.dview((&pool).into(), "protocolRevenue", vec![]).0;
    let a = vec![s("AAA-123456"), n(100 * WAD), ad(&STUB.to_managed_address()), s("receive"), pack(vec![n(3 * WAD)])];
    h.ctrl(ALICE, "flashLoan", a, &[]).unwrap();
    let r1 = h.dview((&pool).into(), "protocolRevenue", vec![]).0;
    check(r1 - r0 == 3 * WAD, &format!("all 3 tokens above the principal are protocol revenue, got {}", r1 - r0));
''',"a flash-loan receiver that returns more than principal plus fee","the surplus above the fee stays in the pool without being booked to anyone",also=("P02",))
