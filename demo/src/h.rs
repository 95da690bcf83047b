// Scenario harness: the real contracts of this repository on the framework's debug VM.
#![allow(dead_code)]
use multiversx_sc::codec::TopEncode;
use multiversx_sc_scenario::imports::*;
use multiversx_sc_scenario::scenario_model::TxResponseStatus;
use multiversx_sc_scenario::{ScenarioTxWhitebox, ScenarioWorld};

pub mod stub {
    multiversx_sc::imports!();
    // one contract playing swap router, price view, revenue accumulator and flash-loan receiver
    #[multiversx_sc::contract]
    pub trait Stub {
        #[init]
        fn init(&self) {}
        #[payable("*")]
        #[endpoint(deposit)]
        fn deposit(&self) {}
        /// router: returns (token, amount) pairs given as arguments
        #[payable("*")]
        #[endpoint(xo)]
        fn xo(&self, out: MultiValueEncoded<MultiValue2<EgldOrEsdtTokenIdentifier, BigUint>>) {
            let caller = self.blockchain().get_caller();
            for p in out {
                let (t, a) = p.into_tuple();
                self.tx().to(&caller).payment(EgldOrEsdtTokenPayment::new(t, 0, a)).transfer();
            }
        }
        /// flash-loan receiver: pays back the loan plus `extra`, after calling `to`.`f`(args) when `f` is given
        #[payable("*")]
        #[endpoint(receive)]
        fn receive(&self, extra: BigUint, back_to: OptionalValue<ManagedAddress>, f: OptionalValue<ManagedBuffer>, args: MultiValueEncoded<ManagedBuffer>) {
            let caller = self.blockchain().get_caller();
            let p = self.call_value().egld_or_single_esdt();
            if let OptionalValue::Some(name) = f {
                let mut a = ManagedArgBuffer::new();
                for x in args {
                    a.push_arg(x);
                }
                let to = back_to.into_option().unwrap();
                let _: ManagedVec<ManagedBuffer> = self.tx().to(to).raw_call(name).arguments_raw(a).returns(ReturnsRawResult).sync_call().into();
            }
            let amount = p.amount + extra;
            self.tx().to(&caller).payment(EgldOrEsdtTokenPayment::new(p.token_identifier, 0, amount)).transfer();
        }
        #[payable("*")]
        #[endpoint(keep)]
        fn keep(&self) {}
        #[storage_mapper("safe_token")]
        fn safe_token(&self) -> SingleValueMapper<TokenIdentifier>;
        #[storage_mapper("safe_amount")]
        fn safe_amount(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("state")]
        fn state(&self) -> SingleValueMapper<u8>;
        #[endpoint(setSafe)]
        fn set_safe(&self, t: TokenIdentifier, a: BigUint, state: u8) {
            self.safe_token().set(t);
            self.safe_amount().set(a);
            self.state().set(state);
        }
        #[view(getSafePriceByTimestampOffset)]
        fn safe(&self, _pair: ManagedAddress, _off: u64, _p: EsdtTokenPayment) -> EsdtTokenPayment {
            EsdtTokenPayment::new(self.safe_token().get(), 0, self.safe_amount().get())
        }
    }
}

pub const OWNER: TestAddress = TestAddress::new("owner");
pub const ALICE: TestAddress = TestAddress::new("alice");
pub const BOB: TestAddress = TestAddress::new("bob");
pub const CAROL: TestAddress = TestAddress::new("carol");
pub const ORACLES: [TestAddress; 5] = [TestAddress::new("o1"), TestAddress::new("o2"), TestAddress::new("o3"), TestAddress::new("o4"), TestAddress::new("o5")];
pub const CTRL: TestSCAddress = TestSCAddress::new("controller");
pub const TEMPLATE: TestSCAddress = TestSCAddress::new("template");
pub const AGG: TestSCAddress = TestSCAddress::new("aggregator");
pub const AGG2: TestSCAddress = TestSCAddress::new("agg2");
pub const STUB: TestSCAddress = TestSCAddress::new("stub");
pub const POOL: TestSCAddress = TestSCAddress::new("pool");
const C_CODE: MxscPath = MxscPath::new("mem/controller.mxsc.json");
const P_CODE: MxscPath = MxscPath::new("mem/pool.mxsc.json");
const A_CODE: MxscPath = MxscPath::new("mem/aggregator.mxsc.json");
const S_CODE: MxscPath = MxscPath::new("mem/stub.mxsc.json");
pub const NFT: &str = "LENDACC-123456";
pub const RAY: u128 = 1_000_000_000_000_000_000_000_000_000;
pub const WAD: u128 = 1_000_000_000_000_000_000;
pub const SFT: &str = "SFT-123456";

pub type Addr = ManagedAddress<StaticApi>;
pub type Big = BigUint<StaticApi>;
pub type Out = Result<Vec<Vec<u8>>, String>;

/// argument encodings
pub fn n(x: u128) -> Vec<u8> {
    x.to_be_bytes().iter().cloned().skip_while(|b| *b == 0).collect()
}
pub fn s(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}
pub fn ad(a: &Addr) -> Vec<u8> {
    a.to_address().as_bytes().to_vec()
}
pub fn enc<T: TopEncode>(t: &T) -> Vec<u8> {
    let mut v = Vec::new();
    t.top_encode(&mut v).unwrap();
    v
}
/// nested (token, 0, amount)
pub fn pay(token: &str, amount: u128) -> Vec<u8> {
    let mut v = (token.len() as u32).to_be_bytes().to_vec();
    v.extend(token.as_bytes());
    v.extend(0u64.to_be_bytes());
    let a = n(amount);
    v.extend((a.len() as u32).to_be_bytes());
    v.extend(a);
    v
}
pub fn num(b: &[u8]) -> u128 {
    b.iter().fold(0u128, |x, y| (x << 8) | *y as u128)
}
/// top-encoded fixed-point number: (value, precision)
pub fn decv(b: &[u8]) -> (u128, u32) {
    let l = u32::from_be_bytes(b[0..4].try_into().unwrap()) as usize;
    let v = num(&b[4..4 + l]);
    let p = if b.len() >= 8 + l { u32::from_be_bytes(b[4 + l..8 + l].try_into().unwrap()) } else { 0 };
    (v, p)
}
/// encode a fixed-point argument
pub fn decarg(v: u128, p: u32) -> Vec<u8> {
    let a = n(v);
    let mut o = (a.len() as u32).to_be_bytes().to_vec();
    o.extend(a);
    o.extend(p.to_be_bytes());
    o
}

/// market configuration
#[derive(Clone)]
pub struct Mk {
    pub token: &'static str,
    pub dec: usize,
    pub price: u128, // USD, 18 decimals
    pub ltv: u128,
    pub lt: u128,
    pub bonus: u128,
    pub fee: u128,
    pub collateral: bool,
    pub borrowable: bool,
    pub isolated: bool,
    pub ceiling: u128, // USD 18 decimals
    pub flash_fee: u128,
    pub siloed: bool,
    pub flashable: bool,
    pub iso_borrow: bool,
    pub bcap: u128,
    pub scap: u128,
    pub reserve: u128,
}
pub fn mk(token: &'static str, dec: usize, price: u128) -> Mk {
    Mk { token, dec, price, ltv: 7500, lt: 8000, bonus: 500, fee: 1000, collateral: true, borrowable: true, isolated: false, ceiling: 0,
         flash_fee: 50, siloed: false, flashable: true, iso_borrow: false, bcap: 0, scap: 0, reserve: 2000 }
}

pub struct H {
    pub w: ScenarioWorld,
    pub now: u64,
}

impl H {
    /// accounts, aggregator, template, stub and controller, with no markets
    pub fn new() -> H {
        let mut w = ScenarioWorld::new();
        w.register_contract(C_CODE, controller::ContractBuilder);
        w.register_contract(P_CODE, liquidity_layer::ContractBuilder);
        w.register_contract(A_CODE, price_aggregator::ContractBuilder);
        w.register_contract(S_CODE, stub::ContractBuilder);
        for a in [OWNER, ALICE, BOB, CAROL] {
            w.account(a).nonce(1).balance(Big::from(1_000_000u64) * Big::from(WAD));
        }
        for a in ORACLES {
            w.account(a).nonce(1);
        }
        let mut h = H { w, now: 1_000_000 };
        h.time(1_000_000);
        let rates = rate_args(2000);
        let mut a: Vec<Vec<u8>> = vec![s("USDC-123456")];
        a.extend(rates);
        a.push(n(6));
        h.deploy(P_CODE, TEMPLATE, a);
        h.deploy(S_CODE, STUB, vec![]);
        h.deploy(A_CODE, AGG, [vec![n(1)], ORACLES[..1].iter().map(|o| ad(&o.to_managed_address())).collect()].concat());
        h.call(OWNER.into(), AGG.into(), "unpause", vec![], &[]).unwrap();
        let c = vec![ad(&TEMPLATE.to_managed_address()), ad(&AGG.to_managed_address()), ad(&STUB.to_managed_address()), ad(&STUB.to_managed_address()), ad(&STUB.to_managed_address())];
        h.deploy(C_CODE, CTRL, c);
        let _ = h.call(OWNER.into(), CTRL.into(), "unpause", vec![], &[]);
        h.w.set_esdt_local_roles(CTRL.to_managed_address::<StaticApi>(), NFT.as_bytes(), &[EsdtLocalRole::NftCreate, EsdtLocalRole::NftBurn, EsdtLocalRole::NftUpdateAttributes]);
        h.w.tx().from(OWNER).to(CTRL).whitebox(controller::contract_obj, |sc| {
            use controller::storage::Storage;
            sc.account().set_token_id(TokenIdentifier::from(NFT));
        });
        h.price("EGLD", 40 * WAD);
        h.oracle("EGLD", 18, 0);
        h
    }
    pub fn deploy(&mut self, code: MxscPath, at: TestSCAddress, args: Vec<Vec<u8>>) {
        self.w.tx().from(OWNER).raw_deploy().arguments_raw(argbuf(args)).code(code).new_address(at).run();
    }
    pub fn deploy_pool(&mut self, token: &str, dec: u128, rates: Vec<Vec<u8>>) {
        let mut a = vec![s(token)];
        a.extend(rates);
        a.push(n(dec));
        self.deploy(P_CODE, POOL, a);
    }
    pub fn deploy_aggregator(&mut self, at: TestSCAddress, count: u128, oracles: &[TestAddress]) {
        self.deploy(A_CODE, at, [vec![n(count)], oracles.iter().map(|o| ad(&o.to_managed_address())).collect()].concat());
    }
    pub fn time(&mut self, t: u64) {
        self.now = t;
        self.w.current_block().block_timestamp(t);
    }
    pub fn price(&mut self, ticker: &str, usd: u128) {
        let now = self.now;
        self.call(ORACLES[0].into(), AGG.into(), "submit", vec![s(ticker), s("USD"), n(now as u128), n(usd)], &[]).unwrap();
    }
    /// move time and resubmit prices
    pub fn later(&mut self, dt: u64, prices: &[(&str, u128)]) {
        let t = self.now + dt;
        self.time(t);
        self.price("EGLD", 40 * WAD);
        for (k, p) in prices {
            self.price(k, *p);
        }
    }
    pub fn fund(&mut self, a: TestAddress, token: &str, amount: u128) {
        self.w.set_esdt_balance(a.to_managed_address::<StaticApi>(), token.as_bytes(), Big::from(amount));
    }
    pub fn fund_sc(&mut self, a: TestSCAddress, token: &str, amount: u128) {
        self.w.set_esdt_balance(a.to_managed_address::<StaticApi>(), token.as_bytes(), Big::from(amount));
    }
    pub fn oracle(&mut self, token: &str, dec: usize, first_up: u128) {
        let t = token.to_string();
        let _ = first_up;
        self.w.tx().from(OWNER).to(CTRL).whitebox(controller::contract_obj, move |sc| {
            use common_structs::*;
            use controller::storage::Storage;
            let d = |x: u64| ManagedDecimal::from_raw_units(BigUint::from(x), 4);
            sc.token_oracle(&EgldOrEsdtTokenIdentifier::esdt(t.as_str())).set(OracleProvider {
                base_token_id: EgldOrEsdtTokenIdentifier::esdt(t.as_str()),
                quote_token_id: EgldOrEsdtTokenIdentifier::esdt("WEGLD-abcdef"),
                tolerance: OraclePriceFluctuation { first_upper_ratio_bps: d(10200), first_lower_ratio_bps: d(9804), last_upper_ratio_bps: d(11000), last_lower_ratio_bps: d(9091) },
                oracle_contract_address: ManagedAddress::from(STUB.eval_to_array()),
                pricing_method: PricingMethod::Aggregator,
                oracle_type: OracleType::Normal,
                exchange_source: ExchangeSource::XExchange,
                asset_decimals: dec,
                onedex_pair_id: 0,
                max_price_stale_seconds: 900,
            });
        });
    }
    /// price method of a token: true = aggregator and exchange together, false = aggregator only
    pub fn mixed(&mut self, token: &str, on: bool) {
        let t = token.to_string();
        self.w.tx().from(OWNER).to(CTRL).whitebox(controller::contract_obj, move |sc| {
            use common_structs::*;
            use controller::storage::Storage;
            sc.token_oracle(&EgldOrEsdtTokenIdentifier::esdt(t.as_str())).update(|o| o.pricing_method = if on { PricingMethod::Mix } else { PricingMethod::Aggregator });
        });
    }
    /// is the asset flagged as taking part in e-mode?
    pub fn asset_emode(&mut self, token: &str) -> bool {
        let t = token.to_string();
        let mut on = false;
        self.w.query().to(CTRL).whitebox(controller::contract_obj, |sc| {
            use controller::storage::Storage;
            on = sc.asset_config(&EgldOrEsdtTokenIdentifier::esdt(t.as_str())).get().e_mode_enabled;
        });
        on
    }
    /// oracle and market for a token, funds for the users; returns the pool address
    pub fn market(&mut self, m: &Mk) -> Addr {
        self.oracle(m.token, m.dec, 0);
        let ticker = m.token.split('-').next().unwrap().to_string();
        self.price(&ticker, m.price);
        let mut a: Vec<Vec<u8>> = vec![s(m.token)];
        a.extend(rate_args(m.reserve));
        let b = |x: bool| if x { vec![1u8] } else { vec![] };
        a.extend([n(m.ltv), n(m.lt), n(m.bonus), n(m.fee), b(m.collateral), b(m.borrowable), b(m.isolated), n(m.ceiling), n(m.flash_fee),
                  b(m.siloed), b(m.flashable), b(m.iso_borrow), n(m.dec as u128), n(m.bcap), n(m.scap)]);
        let out = self.call(OWNER.into(), CTRL.into(), "createLiquidityPool", a, &[]).unwrap();
        for u in [OWNER, ALICE, BOB, CAROL] {
            self.fund(u, m.token, 1_000_000_000 * 10u128.pow(m.dec as u32));
        }
        self.fund_sc(STUB, m.token, 1_000_000_000 * 10u128.pow(m.dec as u32));
        Addr::from(<[u8; 32]>::try_from(&out[0][..]).unwrap())
    }
    /// any call; payments as (token, nonce, amount)
    pub fn call(&mut self, from: Who, to: Who, f: &str, args: Vec<Vec<u8>>, pays: &[(&str, u64, u128)]) -> Out {
        let from = from.0;
        let to = to.0;
        let ab = argbuf(args);
        let mut v = ManagedVec::<StaticApi, EgldOrEsdtTokenPayment<StaticApi>>::new();
        for (t, k, a) in pays {
            v.push(EgldOrEsdtTokenPayment::new(EgldOrEsdtTokenIdentifier::from(*t), *k, Big::from(*a)));
        }
        let r: Result<ManagedVec<StaticApi, ManagedBuffer<StaticApi>>, TxResponseStatus> = if pays.is_empty() {
            self.w.tx().from(from).to(to).raw_call(f).arguments_raw(ab).returns(ReturnsHandledOrError::new().returns(ReturnsRawResult)).run()
        } else {
            self.w.tx().from(from).to(to).raw_call(f).arguments_raw(ab).payment(v).returns(ReturnsHandledOrError::new().returns(ReturnsRawResult)).run()
        };
        match r {
            Ok(x) => Ok(x.into_iter().map(|b| b.to_boxed_bytes().as_slice().to_vec()).collect()),
            Err(e) => Err(e.message),
        }
    }
    pub fn ctrl(&mut self, from: TestAddress, f: &str, args: Vec<Vec<u8>>, pays: &[(&str, u64, u128)]) -> Out {
        self.call(from.into(), CTRL.into(), f, args, pays)
    }
    pub fn view(&mut self, at: Who, f: &str, args: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
        self.call(OWNER.into(), at, f, args, &[]).unwrap()
    }
    /// amount and precision of a fixed-point view
    pub fn dview(&mut self, at: Who, f: &str, args: Vec<Vec<u8>>) -> (u128, u32) {
        let v = self.view(at, f, args);
        decv(&v[0])
    }
    /// open an account with a supply
    pub fn open(&mut self, u: TestAddress, token: &str, amount: u128) -> u64 {
        self.ctrl(u, "supply", vec![], &[(token, 0, amount)]).unwrap();
        self.last()
    }
    pub fn last(&mut self) -> u64 {
        let v = self.view(CTRL.into(), "getAccountNonce", vec![]);
        num(&v[0]) as u64
    }
    pub fn nft(&self, k: u64) -> (&'static str, u64, u128) {
        (NFT, k, 1)
    }
    pub fn borrow(&mut self, u: TestAddress, k: u64, token: &str, amount: u128) -> Out {
        self.ctrl(u, "borrow", vec![pay(token, amount)], &[(NFT, k, 1)])
    }
    pub fn withdraw(&mut self, u: TestAddress, k: u64, token: &str, amount: u128) -> Out {
        self.ctrl(u, "withdraw", vec![pay(token, amount)], &[(NFT, k, 1)])
    }
    pub fn bal(&mut self, a: Who, token: &str) -> u128 {
        // the framework only offers balance assertions: assert something absurd and read the actual value off the report
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            self.w.check_account(&a.0).esdt_balance(TokenIdentifier::<StaticApi>::from(token), Big::from(u128::MAX));
        }));
        std::panic::set_hook(hook);
        match r {
            Ok(_) => u128::MAX,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().unwrap_or_else(|| e.downcast_ref::<&str>().unwrap_or(&"").to_string());
                match m.find("left: ").or(m.find("Have: ")) {
                    Some(i) => m[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0),
                    None => 0,
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Who(pub Addr);
impl From<TestAddress<'_>> for Who {
    fn from(a: TestAddress) -> Who {
        Who(a.to_managed_address())
    }
}
impl From<TestSCAddress<'_>> for Who {
    fn from(a: TestSCAddress) -> Who {
        Who(a.to_managed_address())
    }
}
impl From<&Addr> for Who {
    fn from(a: &Addr) -> Who {
        Who(a.clone())
    }
}

fn argbuf(args: Vec<Vec<u8>>) -> ManagedArgBuffer<StaticApi> {
    let mut b = ManagedArgBuffer::new();
    for a in args {
        b.push_arg(ManagedBuffer::<StaticApi>::from(&a[..]));
    }
    b
}
/// max, base, slope1, slope2, slope3 (yearly), mid and optimal utilisation, reserve factor
pub fn rate_args(reserve: u128) -> Vec<Vec<u8>> {
    let p = RAY / 100;
    vec![n(69 * p), n(p), n(5 * p), n(15 * p), n(50 * p), n(65 * p), n(90 * p), n(reserve)]
}
pub fn fail(m: &str) -> ! {
    eprintln!("FAILED: {m}");
    std::process::exit(1)
}
pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
    eprintln!("ok: {m}");
}
/// several arguments packed into one argument
pub fn pack(v: Vec<Vec<u8>>) -> Vec<u8> {
    v.into_iter().flat_map(|x| [(x.len() as u32).to_be_bytes().to_vec(), x].concat()).collect()
}
