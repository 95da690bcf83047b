mod h;
use h::*;
fn run(pays: &[u128]) {
    let mut h = H::new();
    h.market(&mk("AAA-123456", 18, WAD));
    h.market(&mk("USDC-123456", 6, WAD));
    h.market(&mk("BBB-123456", 6, WAD));
    h.open(CAROL, "USDC-123456", 1_000_000_000_000);
    h.open(CAROL, "BBB-123456", 1_000_000_000_000);
    let k = h.open(ALICE, "AAA-123456", 1000 * WAD);
    h.borrow(ALICE, k, "USDC-123456", 100_000_000).unwrap();
    h.borrow(ALICE, k, "BBB-123456", 650_000_000).unwrap();
    h.later(60, &[("AAA", WAD * 80 / 100), ("USDC", WAD), ("BBB", WAD)]);
    let (u0, a0) = (h.bal(BOB.into(), "USDC-123456"), h.bal(BOB.into(), "AAA-123456"));
    let p: Vec<(&str, u64, u128)> = pays.iter().map(|x| ("USDC-123456", 0, *x)).collect();
    let r = h.ctrl(BOB, "liquidate", vec![n(k as u128)], &p);
    let (u1, a1) = (h.bal(BOB.into(), "USDC-123456"), h.bal(BOB.into(), "AAA-123456"));
    eprintln!("{:?} paid {} usdc got {} A;", r, u0 - u1, (a1 - a0) as f64 / 1e18);
}
fn main() {
    run(&[100_000_000]);
    run(&[300_000_000]);
    run(&[100_000_000, 100_000_000]);
    run(&[100_000_000, 100_000_000, 100_000_000, 100_000_000]);
}
