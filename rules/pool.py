"""The liquidity pool."""
from lib import *
from . import rule
import terms as T
import cuts as C

LL = "liquidity_layer"
MUT = ["updateIndexes", "supply", "borrow", "withdraw", "repay", "addRewards", "flashLoan", "createStrategy",
       "seizePosition", "claimRevenue", "updateParams"]
STATE = ["supplied", "borrowed", "revenue", "borrow_index", "supply_index", "last_timestamp"]
POS = C.POSARG
SIDE = {"supply": "supplied", "withdraw": "supplied", "borrow": "borrowed", "repay": "borrowed", "createStrategy": "borrowed"}


def ep(W, R, n):
    r = W.ep(LL, n)
    R.use(r)
    R.ob("completes", n, r.ok and r.pc is not FALSE, "the entry point can never succeed", r.where())
    return r


def acc(W, R, b):
    """pool state after bringing interest up to date"""
    return R.use(W.ep(LL, "updateIndexes")).final(b)


def params(f):
    return proj(load("params"), f)


def asset():
    return params("asset_id")


def decimals():
    return params("asset_decimals")


def amount_of(t):
    return dec(t, decimals())


def payment():
    return amount_of(proj(env("payment"), "amount"))


def posamt(t):
    return proj(t, "scaled_amount_ray")


def balance(e):
    return app("balance", e.bal, asset(), INT(0))


def drains(R, r):
    return [m for m in r.moves()]


# ------------------------------------------------------------------ P01
@rule("P01", "For each pool entry point that touches funds or accounting, the committed interest indexes and "
      "timestamp equal the fully accrued ones, and on a flash loan the accrued state is committed before the outside call.")
def p01(W, R):
    for n in MUT:
        r = ep(W, R, n)
        if n == "flashLoan":
            calls = [e for e in r.of("call")]
            for e in calls:
                for b in STATE:
                    st = [s for s in r.stores(b) if s.seq < e.seq]
                    R.ob("committed-before-call", f"{n}/{b}", st, "not written before the outside call", e.at())
                    if st:
                        R.eq("accrued", f"{n}/{b}", e.pc, raw_(st[-1].value, b), raw_(acc(W, R, b), b), st[-1].at())
            R.floor("outside calls in flash loan", len(calls), 1)
            continue
        for b in ("last_timestamp", "borrow_index", "supply_index"):
            if b == "supply_index" and n in ("addRewards", "seizePosition"):
                continue
            R.eq("accrued", f"{n}/{b}", r.pc, raw_(r.final(b), b), raw_(acc(W, R, b), b), r.where())
    R.floor("entry points", len(MUT), 11)


def raw_(t, b):
    return t if b in ("last_timestamp", "params") else raw(t)


# ------------------------------------------------------------------ P02
@rule("P02", "For each pool operation, change of total supplied = change of the position (supply side) + change of the "
      "protocol's share; change of total borrowed = change of the position (borrow side). Decided as equality of gated values.")
def p02(W, R):
    Z = dec(0, 27)
    for n in MUT:
        r = ep(W, R, n)
        if n == "claimRevenue":
            continue        # decided exactly by the claim rule
        if n == "flashLoan":
            S0, B0, V0 = (reload(r, b) for b in ("supplied", "borrowed", "revenue"))
        else:
            S0, B0, V0 = (acc(W, R, b) for b in ("supplied", "borrowed", "revenue"))
        S1, B1, V1 = (r.final(b) for b in ("supplied", "borrowed", "revenue"))
        if n in POS:
            p0 = posamt(arg(POS[n]))
            p1 = posamt(r.result()) if r.result() is not None else Z
        if n == "seizePosition":
            kind = proj(arg(0), "position_type")
            bor_ = T.is_variant(kind, C.M.base if False else adt(W, "AccountPositionType"), "Borrow")
            dep_ = T.is_variant(kind, adt(W, "AccountPositionType"), "Deposit")
            cases = [("debt", bor_, Z, dsub(p0, p1)), ("deposit", dep_, dsub(p0, p1), Z), ("other", band(bnot(bor_), bnot(dep_)), Z, Z)]
            for nm, c, ds, db in cases:
                pc = band(r.pc, c)
                R.ob("case-live", f"{n}/{nm}", feasible(pc), "case never succeeds", r.where())
                R.eq("supplied", f"{n}/{nm}", pc, raw(dadd(S1, dadd(ds, V0))), raw(dadd(S0, V1)), r.where())
                R.eq("borrowed", f"{n}/{nm}", pc, raw(dadd(B1, db)), raw(B0), r.where())
                if nm != "other":
                    R.eq("position-emptied", f"{n}/{nm}", pc, raw(p1), INT(0), r.where())
                else:
                    R.eq("position-kept", f"{n}/{nm}", pc, raw(p1), raw(p0), r.where())
            continue
        ls = rs = INT(0)
        lb = rb = INT(0)
        side = SIDE.get(n)
        # S1 + p0 + V0 == S0 + p1 + V1
        a, b = dadd(S1, V0), dadd(S0, V1)
        if side == "supplied":
            a, b = dadd(a, p0), dadd(b, p1)
        R.eq("supplied", n, r.pc, raw(a), raw(b), r.where())
        a, b = B1, B0
        if side == "borrowed":
            a, b = dadd(a, p0), dadd(b, p1)
        R.eq("borrowed", n, r.pc, raw(a), raw(b), r.where())
    R.floor("operations", len(MUT) - 1, 10)


def adt(W, name):
    c = [a for a in T.VARIANTS if a.split("::")[-1].split("<")[0] == name]
    return c[0] if c else name


def reload(r, b):
    """the stored value read back after the outside call"""
    ls = [e for e in r.of("sload") if keybase(e.key) == b]
    call = r.of("call")[-1]
    ls = [e for e in ls if e.seq > call.seq]
    if not ls:
        raise Missing(f"re-read of {b} after the outside call in {r.name}")
    return ls[0].value


def ghu_full(pos, idx, amount):
    """(is full close, amount owed) for a position, index and requested amount"""
    owed = resc(mulhu(posamt(pos), idx), decimals())
    return dle(owed, amount), owed


# ------------------------------------------------------------------ P03
@rule("P03", "For supply, borrow, repay, withdraw and leveraged borrow: the scaled amount added to / removed from the position "
      "equals amount / accrued index of that side rounded half up at 27 decimals, and a request covering the whole position "
      "removes exactly the whole scaled balance.")
def p03(W, R):
    for n, side, amt, sign in (("supply", "supply_index", payment(), 1), ("borrow", "borrow_index", arg(1), 1),
                               ("createStrategy", "borrow_index", arg(1), 1),
                               ("withdraw", "supply_index", arg(1), -1), ("repay", "borrow_index", payment(), -1)):
        r = ep(W, R, n)
        pos = arg(POS[n])
        idx = acc(W, R, side)
        if r.result() is None:
            R.ob("returns-position", n, False, "the updated position is not returned", r.where())
            continue
        got = posamt(r.result())
        sc = divhu(amt, idx)
        if sign > 0:
            want = dadd(posamt(pos), sc)
        else:
            full, owed = ghu_full(pos, idx, amt)
            want = dsel(full, dec(0, 27), dsub(posamt(pos), sc))
        R.eq("scaled-amount", n, r.pc, raw(got), raw(want), r.where())
        R.ob("scale", n, proj(got, "scale") is INT(27), "position amount is not kept at 27 decimals", r.where())
    R.floor("conversions", 5, 5)


# ------------------------------------------------------------------ P04
@rule("P04", "Every token movement out of the pool is dominated by a check that the amount does not exceed the pool's current "
      "balance of its asset (or is bounded by it / by the payment just received).")
def p04(W, R):
    n_ = 0
    for n in W.all_eps(LL):
        r = R.use(W.ep(LL, n))
        for e, to, tok, a, _ in r.moves():
            n_ += 1
            bal = balance(e)
            c = T.le(a, bal)
            if n == "repay":
                c = bor(c, T.le(a, proj(env("payment"), "amount")))
            R.imp("within-reserves", f"{n}/{e.fn.split('::')[-1]}", e.pc, c, "amount sent <= pool balance at that moment", e.at())
    R.floor("outgoing transfers", n_, 6)


# ------------------------------------------------------------------ P05
def one_move(R, r, n, to, tok, amount, cond=TRUE, rule_="payout"):
    """exactly one outgoing movement, with these values, whenever the entry succeeds under cond and the amount is not zero"""
    ms = r.moves()
    R.ob(rule_, f"{n}/count", len(ms) >= 1, "no outgoing transfer", r.where())
    cover = FALSE
    for e, t, k, a, nonce in ms:
        R.eq(rule_, f"{n}/recipient", e.pc, t, to, e.at())
        R.eq(rule_, f"{n}/token", e.pc, k, tok, e.at())
        R.eq(rule_, f"{n}/nonce", e.pc, nonce, INT(0), e.at())
        R.eq(rule_, f"{n}/amount", e.pc, a, amount, e.at())
        R.ob(rule_, f"{n}/once", not feasible(band(cover, e.pc)) and not e.loops, "sent more than once", e.at())
        cover = bor(cover, e.pc)
    need = band(r.pc, cond)
    R.imp(rule_, f"{n}/always", need, bor(cover, bnot(T.lt(INT(0), amount))), "the payout happens", r.where())


@rule("P05", "Per entry point, the set of outgoing transfers: recipient, token and amount are the specified ones, happen once, "
      "and happen whenever the operation succeeds; other entry points send nothing.")
def p05(W, R):
    A = asset()
    r = ep(W, R, "borrow")
    one_move(R, r, "borrow", arg(0), A, raw(arg(1)))
    r = ep(W, R, "withdraw")
    full, owed = ghu_full(arg(2), acc(W, R, "supply_index"), arg(1))
    gross = dsel(full, raw(owed), raw(arg(1)))
    some = C.M.is_some(arg(4))
    fee = T.vproj(arg(4), "Some", "0")
    liq = T.truth(arg(3))
    net = dsel(band(liq, some), T.sub(gross, raw(fee)), gross)
    one_move(R, r, "withdraw", arg(0), A, net)
    R.imp("fee-covered", "withdraw", band(r.pc, band(liq, some)), T.le(raw(fee), gross), "fee <= withdrawn amount", r.where())
    r = ep(W, R, "repay")
    full, owed = ghu_full(arg(1), acc(W, R, "borrow_index"), payment())
    over = dsel(full, T.sub(raw(payment()), raw(owed)), INT(0))
    one_move(R, r, "repay", arg(0), A, over)
    r = ep(W, R, "createStrategy")
    one_move(R, r, "createStrategy", env("caller"), A, T.sub(raw(arg(1)), raw(arg(2))))
    R.imp("fee-covered", "createStrategy", r.pc, T.le(raw(arg(2)), raw(arg(1))), "fee <= amount", r.where())
    r = ep(W, R, "flashLoan")
    one_move(R, r, "flashLoan", arg(2), A, raw(arg(1)))
    k = 0
    for n in W.all_eps(LL):
        if n in ("borrow", "withdraw", "repay", "createStrategy", "flashLoan", "claimRevenue"):
            continue
        r = R.use(W.ep(LL, n))
        k += 1
        R.ob("sends-nothing", n, not r.moves(), "unexpected outgoing transfer", r.moves()[0][0].at() if r.moves() else "")
    R.floor("silent entry points", k, 18)


# ------------------------------------------------------------------ P06
KEEP = {
    "updateIndexes": ["supplied*", "borrowed", "revenue*", "params"],
    "supply": ["borrowed", "revenue", "params"],
    "borrow": ["supplied", "revenue", "params"],
    "withdraw": ["borrowed", "params"],
    "repay": ["supplied", "revenue", "params"],
    "addRewards": ["supplied", "borrowed", "revenue", "params"],
    "flashLoan": ["params"],
    "createStrategy": ["params"],
    "seizePosition": ["params"],
    "claimRevenue": ["borrowed", "params"],
    "updateParams": ["supplied", "borrowed", "revenue"],
}


@rule("P06", "Frame of each pool operation: accounting entries the operation has no business with are committed with their "
      "accrued value, nothing outside the pool's own entries is written, and views write nothing and send nothing.")
def p06(W, R):
    for n in MUT:
        r = ep(W, R, n)
        for b in KEEP[n]:
            b_ = b.rstrip("*")
            if n == "updateIndexes" and b.endswith("*"):
                continue
            want = load("params") if b_ == "params" else acc(W, R, b_)
            if n == "flashLoan":
                continue
            R.eq("unchanged", f"{n}/{b_}", r.pc, raw_(r.final(b_), b_), raw_(want, b_), r.where())
        if n == "flashLoan":
            for b in ("borrowed", "borrow_index", "supply_index", "last_timestamp"):
                R.eq("unchanged", f"{n}/{b}", r.pc, raw_(r.final(b), b), raw_(reload(r, b), b), r.where())
        for s in r.stores():
            b = keybase(s.key)
            R.ob("own-entries", f"{n}/{b or show(s.key, 3)}", b in STATE + (["params"] if n == "updateParams" else []) and s.addr is SELF,
                 "writes an entry this operation does not own", s.at())
    views = [n for n in W.all_eps(LL) if n not in MUT + ["init", "upgrade"]]
    for n in views:
        r = R.use(W.ep(LL, n))
        bad = r.stores() + r.of("transfer", "call", "burn", "mint")
        R.ob("view-pure", n, not bad, "a view changes state", bad[0].at() if bad else "")
    R.floor("views", len(views), 15)


# ------------------------------------------------------------------ P07
@rule("P07", "Flash loan in the pool: success requires exactly one returned payment, of the pool's asset, of at least "
      "amount * (100% + fee) half up; the surplus over the principal is booked as protocol revenue on freshly re-read state.")
def p07(W, R):
    r = ep(W, R, "flashLoan")
    calls = r.of("call")
    R.ob("one-outside-call", "flashLoan", len(calls) == 1 and not calls[0].loops, "not exactly one outside call", r.where())
    if not calls:
        return
    c = calls[0]
    R.imp("asset", "flashLoan/asset", c.pc, T.eqv(arg(0), asset()), "loan is of the pool's asset", c.at())
    back = proj(mk("backtransfers", c.ret), "payments")
    ln = C.M.vlen(back)
    R.imp("single-repayment", "flashLoan", r.pc, T.eqnum(ln, INT(1)), "exactly one payment returned", r.where())
    first = C.M.vget(None, back, INT(0))
    R.imp("repayment-asset", "flashLoan", r.pc, T.eqv(proj(first, "token_identifier"), params_after(r, "asset_id")), "repaid in the pool's asset", r.where())
    need = resc(mulhu(arg(1), dadd(dec(10000, 4), arg(5))), decimals())
    R.imp("repayment-amount", "flashLoan", r.pc, T.le(raw(need), proj(first, "amount")), "repayment covers principal and fee", r.where())
    fee = dsub(amount_after(r, proj(first, "amount")), arg(1))
    sc = dsel(iszero(fee), dec(0, 27), divhu(fee, reload(r, "supply_index")))
    R.eq("surplus-booked", "flashLoan/revenue", r.pc, raw(r.final("revenue")), raw(dadd(reload(r, "revenue"), sc)), r.where())
    R.eq("surplus-booked", "flashLoan/supplied", r.pc, raw(r.final("supplied")), raw(dadd(reload(r, "supplied"), sc)), r.where())
    for b in STATE:
        st = [s for s in r.stores(b) if s.seq > c.seq]
        R.ob("written-after", f"flashLoan/{b}", bool(st), "not written back after the loan", r.where())
        if b in ("supplied", "revenue", "supply_index"):
            lds = [e for e in r.of("sload") if keybase(e.key) == b and e.seq > c.seq]
            R.ob("re-read", f"flashLoan/{b}", bool(lds), "not re-read after the outside call", r.where())


def params_after(r, f):
    c = r.of("call")[-1]
    ls = [e for e in r.of("sload") if keybase(e.key) == "params" and e.seq > c.seq]
    return proj(ls[0].value if ls else load("params"), f)


def amount_after(r, t):
    return dec(t, params_after(r, "asset_decimals"))


# ------------------------------------------------------------------ P08
OPEN = ["getSuppliedScaled", "getBorrowedScaled", "getRevenueScaled", "getParameters", "getBorrowIndex", "getSupplyIndex",
        "getLastTimestamp", "capitalUtilisation", "reserves", "depositRate", "borrowRate", "deltaTime", "protocolRevenue",
        "suppliedAmount", "borrowedAmount"]


@rule("P08", "Every exported pool entry that writes storage, moves tokens or calls out is dominated by caller == owner; "
      "the set of entries is enumerated from the compiled contract.")
def p08(W, R):
    k = 0
    for n in W.all_eps(LL):
        if n in ("init", "upgrade"):
            continue
        r = R.use(W.ep(LL, n))
        eff = r.stores() + r.of("transfer", "call", "burn", "mint", "sendop")
        if n in MUT or eff:
            k += 1
            only = T.eqv(env("caller"), env("owner"))
            R.imp("owner-only", n, r.pc, only, "caller is the owner", r.where())
            for e in eff:
                R.imp("owner-only", f"{n}/{e.kind}", e.pc, only, "caller is the owner", e.at())
    R.floor("guarded entries", k, 11)


# ------------------------------------------------------------------ P09
@rule("P09", "Every pool operation on a position or on an incoming payment requires the position's / payment's token to be the "
      "pool's own asset; only supply, repay and reward top-ups accept payments.")
def p09(W, R):
    for n in POS:
        r = ep(W, R, n)
        R.imp("position-asset", n, r.pc, T.eqv(proj(arg(POS[n]), "asset_id"), asset()), "position token is the pool's asset", r.where())
    for n in ("supply", "repay", "addRewards"):
        r = ep(W, R, n)
        R.imp("payment-asset", n, r.pc, T.eqv(proj(env("payment"), "token_identifier"), asset()), "payment token is the pool's asset", r.where())
    for n in MUT:
        r = ep(W, R, n)
        if n not in ("supply", "repay", "addRewards"):
            R.imp("not-payable", n, r.pc, T.truth(env("no_payment")), "no payment accepted", r.where())
    r = ep(W, R, "flashLoan")
    R.imp("loan-asset", "flashLoan", r.pc, T.eqv(arg(0), asset()), "loaned token is the pool's asset", r.where())
    R.floor("operations", len(POS) + 3 + len(MUT), 20)


RAY1 = dec(10 ** 27, 27)


def supply_index_update(supplied, si, rewards):
    """index after distributing rewards (27 decimals) over the suppliers"""
    skip = bor(iszero(supplied), iszero(rewards))
    ratio = divhu(rewards, mulhu(supplied, si))
    return dsel(skip, si, mulhu(si, dadd(RAY1, ratio)))


def borrow_rate(util, prm):
    return dec(proj(app("borrow_rate", util, prm), "raw"), 27)


def accrual(g, now):
    """specified interest accrual on the state read by g(entry): new values of the entries"""
    S, B, V, bi, si, ts, prm = (g(x) for x in ("supplied", "borrowed", "revenue", "borrow_index", "supply_index", "last_timestamp", "params"))
    delta = T.sub(now, ts)
    due = T.lt(INT(0), delta)
    util = dsel(iszero(S), dec(0, 27), divhu(mulhu(B, bi), mulhu(S, si)))
    factor = dec(proj(app("compound", borrow_rate(util, prm), delta), "raw"), 27)
    nbi = mulhu(bi, factor)
    interest = dsub(mulhu(B, nbi), mulhu(B, bi))
    fee = mulhu(interest, proj(prm, "reserve_factor_bps"))
    rewards = dsub(interest, fee)
    nsi = supply_index_update(S, si, rewards)
    sc = dsel(iszero(fee), dec(0, 27), divhu(fee, nsi))
    return due, dict(supplied=dsel(due, dadd(S, sc), S), borrowed=B, revenue=dsel(due, dadd(V, sc), V),
                     borrow_index=dsel(due, nbi, bi), supply_index=dsel(due, nsi, si),
                     last_timestamp=select(due, now, ts))


# ------------------------------------------------------------------ P10
@rule("P10", "The committed result of bringing a market up to date equals, as gated value, the specified accrual: compounded "
      "borrow index, interest = growth of total debt, reserve factor share to the protocol, the rest through the supply index.")
def p10(W, R):
    r = ep(W, R, "updateIndexes")
    due, want = accrual(load, env("now_ms"))
    for b in STATE:
        R.eq("accrual", b, r.pc, raw_(r.final(b), b), raw_(want[b], b), r.where())
    res = r.result()
    if res is None:
        R.ob("returns-indexes", "updateIndexes", False, "the indexes are not returned", r.where())
    else:
        for f, b in (("borrow_index_ray", "borrow_index"), ("supply_index_ray", "supply_index")):
            R.eq("returns-indexes", b, r.pc, raw(proj(res, f)), raw(r.final(b)), r.where())
    R.floor("state entries", len(STATE), 6)


# ------------------------------------------------------------------ P11
@rule("P11", "The borrow-rate function equals the specified three-segment curve with cap, converted to a per-millisecond rate; "
      "the deposit rate equals utilisation * borrow rate * (1 - reserve factor).")
def p11(W, R):
    u, p = dec(raw(mk("param", 1)), 27), mk("param", 2)
    r = R.use(W.fn("common_rates", "InterestRates::calculate_borrow_rate", args={1: u}))
    f = lambda n: proj(p, n)
    mid, opt = f("mid_utilization_ray"), f("optimal_utilization_ray")
    base, s1, s2, s3, cap = f("base_borrow_rate_ray"), f("slope1_ray"), f("slope2_ray"), f("slope3_ray"), f("max_borrow_rate_ray")
    a1 = dadd(base, ddiv(dmul(u, s1), mid))
    a2 = dadd(dadd(base, s1), ddiv(dmul(dsub(u, mid), s2), dsub(opt, mid)))
    a3 = dadd(dadd(dadd(base, s1), s2), ddiv(dmul(dsub(u, opt), s3), dsub(RAY1, opt)))
    ms = dec(31_556_926_000, 0)
    per = lambda d: divhu(dsel(dlt(cap, d), cap, d), ms)
    got = r.val
    lo, hi = dlt(u, mid), dlt(u, opt)
    for nm, c, d in (("below mid", lo, a1), ("mid to optimal", band(bnot(lo), hi), a2), ("above optimal", band(bnot(lo), bnot(hi)), a3)):
        for nm2, c2, v in (("capped", dlt(cap, d), cap), ("uncapped", bnot(dlt(cap, d)), d)):
            R.eq("curve", f"{nm}/{nm2}", band(c, c2), raw(got), raw(divhu(v, ms)), r.where())
    u, b, rf = (dec(raw(mk("param", i)), s) for i, s in ((1, 27), (2, 27), (3, 4)))
    r = R.use(W.fn("common_rates", "InterestRates::calculate_deposit_rate", args={1: u, 2: b, 3: rf}))
    want = dsel(iszero(u), dec(0, 27), mulhu(mulhu(u, b), dsub(dec(10000, 4), rf)))
    R.eq("deposit-rate", "calculate_deposit_rate", r.pc, raw(r.val), raw(want), r.where())
    R.floor("segments", 3, 3)


# ------------------------------------------------------------------ P12
@rule("P12", "The compounding function equals 1 + x + x^2/2 + x^3/6 + x^4/24 + x^5/120 with x = rate * elapsed, each step "
      "half-up at 27 decimals, and exactly 1 when no time elapsed.")
def p12(W, R):
    r = R.use(W.fn("common_rates", "InterestRates::calculate_compounded_interest"))
    rate, t = mk("param", 1), mk("param", 2)
    x = mulhu(rate, dec(t, 0))
    x2 = mulhu(x, x)
    x3 = mulhu(x2, x)
    x4 = mulhu(x3, x)
    x5 = mulhu(x4, x)
    s = dadd(RAY1, x)
    for p, d in ((x2, 2), (x3, 6), (x4, 24), (x5, 120)):
        s = dadd(s, divhu(p, dec(d, 0)))
    z = T.eqnum(t, INT(0))
    R.eq("series", "elapsed", band(r.pc, bnot(z)), raw(r.val), raw(s), r.where())
    R.eq("series", "no time", band(r.pc, z), raw(r.val), INT(10 ** 27), r.where())
    R.ob("scale", "result", proj(r.val, "scale") is INT(27), "result not at 27 decimals", r.where())


def projected(pool, now):
    """the indexes a pool would commit now, and where that is decided: scaled supply is zero exactly when its value is zero, as half-up
    of 0 is 0, and with a positive scaled supply of value 0 the commit divides by zero (it cannot succeed), so there is nothing to agree with"""
    g = lambda b: load(b, addr=pool)
    a, b = T.lt(INT(0), raw(g("supplied"))), T.lt(INT(0), raw(mulhu(g("supplied"), g("supply_index"))))
    return accrual(g, now)[1], T.biff(a, b)


# ------------------------------------------------------------------ P13
@rule("P13", "The controller's read-only index projection and the pool's committed accrual are the same function of the pool's "
      "stored state and time (compared as normal forms after renaming the storage owner).")
def p13(W, R):
    upd = [p for p in W.P.fns if p.endswith("OracleModule::update_asset_index")]
    if not upd:
        raise Missing("projection of market indexes")
    r = R.use(W.fn("controller", upd[0], args={3: T.boolval(TRUE)}))
    ls = [e for e in r.of("sload") if keybase(e.key) == "supply_index"]
    R.floor("remote state reads", len([e for e in r.of("sload") if e.addr is not SELF]), 6)
    if not ls:
        raise Missing("read of the pool's supply index")
    pool = ls[0].addr
    nows = {x for x in T.subterms(r.val) if x.op == "proj" and x.args[1] == "current_timestamp"}
    now = nows.pop() if len(nows) == 1 else env("now_ms")
    want, sane = projected(pool, now)
    pc = band(r.pc, sane)
    for f, b in (("borrow_index_ray", "borrow_index"), ("supply_index_ray", "supply_index")):
        R.eq("projection", b, pc, raw(proj(r.val, f)), raw(want[b]), r.where())
    tok = mk("param", 1)
    pm = [e for e in r.of("sload") if keybase(e.key) == "pools_map"]
    R.ob("projection", "reads the token's own pool", pool is load("pools_map", tok), f"reads state of {show(pool, 4)}", r.where())
    # commit side
    u = R.use(W.ep(LL, "updateIndexes"))
    _, w2 = accrual(load, env("now_ms"))
    for b in ("borrow_index", "supply_index"):
        R.eq("commit", b, u.pc, raw(u.final(b)), raw(w2[b]), u.where())
    # the controller's notion of now
    c = R.use(W.fn("controller", next((p for p in W.P.fns if p.startswith("controller::cache::Cache") and p.endswith("::new")), "controller::cache::Cache::new")))
    R.eq("clock", "controller cache", c.pc, proj(c.val, "current_timestamp"), env("now_ms"), c.where())


# ------------------------------------------------------------------ P14
@rule("P14", "Creating a market or changing its curve is only possible when max rate > base rate, optimal > mid utilisation, "
      "optimal < 100%, reserve factor < 100%; the validated values are the ones stored; a new market starts at index 1, zero totals.")
def p14(W, R):
    names = ["max_borrow_rate_ray", "base_borrow_rate_ray", "slope1_ray", "slope2_ray", "slope3_ray", "mid_utilization_ray",
             "optimal_utilization_ray", "reserve_factor_bps"]
    for n, off in (("init", 1), ("updateParams", 0)):
        r = ep(W, R, n)
        st = r.final("params")
        g = lambda f: proj(st, f)
        for i, f in enumerate(names):
            R.eq("stored", f"{n}/{f}", r.pc, raw(g(f)), arg(i + off), r.where())
            sc = 4 if f.endswith("_bps") else 27
            R.ob("stored-scale", f"{n}/{f}", proj(g(f), "scale") is INT(sc), "stored with another precision", r.where())
        for nm, c in (("max rate > base rate", dlt(g("base_borrow_rate_ray"), g("max_borrow_rate_ray"))),
                      ("optimal > mid", dlt(g("mid_utilization_ray"), g("optimal_utilization_ray"))),
                      ("optimal < 1", dlt(g("optimal_utilization_ray"), RAY1)),
                      ("reserve factor < 1", dlt(g("reserve_factor_bps"), dec(10000, 4)))):
            R.imp("bounds", f"{n}/{nm}", r.pc, c, nm, r.where())
    r = ep(W, R, "init")
    st = r.final("params")
    R.eq("stored", "init/asset", r.pc, proj(st, "asset_id"), arg(0), r.where())
    R.eq("stored", "init/decimals", r.pc, proj(st, "asset_decimals"), arg(9), r.where())
    for b, v in (("supplied", 0), ("borrowed", 0), ("revenue", 0), ("borrow_index", 10 ** 27), ("supply_index", 10 ** 27)):
        R.eq("initial", b, r.pc, raw(r.final(b)), INT(v), r.where())
    R.eq("initial", "last_timestamp", r.pc, r.final("last_timestamp"), env("now_ms"), r.where())
    r = ep(W, R, "updateParams")
    for f in ("asset_id", "asset_decimals"):
        R.eq("kept", f"updateParams/{f}", r.pc, proj(r.final("params"), f), params(f), r.where())
    r = ep(W, R, "upgrade")
    R.ob("kept", "upgrade", not r.stores(), "upgrading rewrites state", r.where())
    R.floor("parameters", len(names), 8)


# ------------------------------------------------------------------ P15
@rule("P15", "Bad-debt write-off: the debt leaves the borrowed total and the supply index falls by the factor "
      "(value - min(debt, value)) / value, never below 1e-27; no other entry lowers the supply index.")
def p15(W, R):
    r = ep(W, R, "seizePosition")
    isb = T.is_variant(proj(arg(0), "position_type"), adt(W, "AccountPositionType"), "Borrow")
    pc = band(r.pc, isb)
    R.ob("case-live", "seizePosition/debt", feasible(pc), "bad debt can never be written off", r.where())
    S, si, bi, B = (acc(W, R, b) for b in ("supplied", "supply_index", "borrow_index", "borrowed"))
    total = mulhu(S, si)
    debt = mulhu(posamt(arg(0)), bi)
    capped = dsel(dlt(debt, total), debt, total)
    nsi = mulhu(si, divhu(dsub(total, capped), total))
    low = dec(1, 27)
    want = dsel(dlt(low, nsi), nsi, low)
    R.eq("socialised", "supply_index", pc, raw(r.final("supply_index")), raw(want), r.where())
    R.eq("socialised", "borrowed", pc, raw(r.final("borrowed")), raw(dsub(B, posamt(arg(0)))), r.where())
    R.eq("only-debt", "supply_index", band(r.pc, bnot(isb)), raw(r.final("supply_index")), raw(si), r.where())
    dep = T.is_variant(proj(arg(0), "position_type"), adt(W, "AccountPositionType"), "Deposit")
    R.eq("dust-collateral", "revenue", band(r.pc, dep), raw(r.final("revenue")), raw(dadd(acc(W, R, "revenue"), posamt(arg(0)))), r.where())
    R.floor("cases", 2, 2)


# ------------------------------------------------------------------ P16
@rule("P16", "Claiming pays min(reserves, value of the protocol's share) to the caller and burns the matching share (all of it on "
      "a full payout, pro rata half up otherwise) from both the share and total supplied; the reported payment is the one sent.")
def p16(W, R):
    r = ep(W, R, "claimRevenue")
    V, S, si = (acc(W, R, b) for b in ("revenue", "supplied", "supply_index"))
    tre = resc(mulhu(V, si), decimals())
    bal = amount_of(app("balance", INT(0), asset(), INT(0)))
    amt = dsel(dlt(bal, tre), bal, tre)
    has = bnot(iszero(V))
    pays = band(has, T.lt(INT(0), raw(amt)))
    burn = dsel(dle(tre, amt), V, mulhu(V, divhu(amt, tre)))
    mn = lambda a, b: dsel(dlt(a, b), a, b)
    R.eq("burn", "revenue", r.pc, raw(r.final("revenue")), raw(dsel(pays, dsub(V, mn(burn, V)), V)), r.where())
    R.eq("burn", "supplied", r.pc, raw(r.final("supplied")), raw(dsel(pays, dsub(S, mn(burn, S)), S)), r.where())
    one_move(R, r, "claimRevenue", env("caller"), asset(), raw(amt), pays, "claim")
    for e, *_ in r.moves():
        R.imp("claim", "only when revenue", e.pc, has, "there is unclaimed revenue", e.at())
    res = r.result()
    if res is None:
        R.ob("reported", "claimRevenue", False, "payment not reported", r.where())
    else:
        R.eq("reported", "amount", r.pc, proj(res, "amount"), dselraw(pays, raw(amt), INT(0)), r.where())
        R.eq("reported", "token", r.pc, proj(res, "token_identifier"), asset(), r.where())


def dselraw(c, a, b):
    return select(c, a, b)


# ------------------------------------------------------------------ P17
@rule("P17", "A reward top-up raises the supply index so that suppliers' total claim grows by exactly the paid amount (half up) "
      "and leaves totals and the protocol's share alone.")
def p17(W, R):
    r = ep(W, R, "addRewards")
    S, si = acc(W, R, "supplied"), acc(W, R, "supply_index")
    want = supply_index_update(S, si, resc(payment(), 27))
    R.eq("rewards", "supply_index", r.pc, raw(r.final("supply_index")), raw(want), r.where())
    for b in ("supplied", "borrowed", "revenue", "borrow_index"):
        R.eq("rewards", b, r.pc, raw(r.final(b)), raw(acc(W, R, b)), r.where())


# ------------------------------------------------------------------ P18
@rule("P18", "Fees withheld by a pool operation (liquidation fee, strategy fee) are booked as protocol share: revenue and total "
      "supplied both grow by fee / supply index; without a fee neither changes.")
def p18(W, R):
    for n, fee, has in (("withdraw", T.vproj(arg(4), "Some", "0"), band(T.truth(arg(3)), C.M.is_some(arg(4)))),
                        ("createStrategy", arg(2), TRUE)):
        r = ep(W, R, n)
        sc = raw(dsel(band(has, bnot(iszero(fee))), divhu(fee, acc(W, R, "supply_index")), dec(0, 27)))
        R.eq("fee-booked", f"{n}/revenue", r.pc, raw(r.final("revenue")), T.add(raw(acc(W, R, "revenue")), sc), r.where())
    r = ep(W, R, "createStrategy")
    sc = raw(dsel(iszero(arg(2)), dec(0, 27), divhu(arg(2), acc(W, R, "supply_index"))))
    R.eq("fee-booked", "createStrategy/supplied", r.pc, raw(r.final("supplied")), T.add(raw(acc(W, R, "supplied")), sc), r.where())
    R.floor("fee sites", 2, 2)


# ------------------------------------------------------------------ P19
@rule("P19", "Each successful pool operation announces the market state, and the announced indexes and totals are the committed ones.")
def p19(W, R):
    k = 0
    for n in MUT:
        r = ep(W, R, n)
        logs = [(e, topics(e)) for e in r.of("log")]
        logs = [(e, t[1]) for e, t in logs if t[0] == "update_market_state"]
        cover = FALSE
        for e, t in logs:
            cover = bor(cover, e.pc)
            k += 1
            R.ob("announced", f"{n}/arity", len(t) >= 8, "fewer values announced", e.at())
            if len(t) < 8:
                continue
            pc = band(r.pc, e.pc)
            for i, b in ((1, "supply_index"), (2, "borrow_index"), (4, "supplied"), (5, "borrowed"), (6, "revenue")):
                R.eq("announced", f"{n}/{b}", pc, raw(t[i]), raw(r.final(b)), e.at())
            R.eq("announced", f"{n}/asset", pc, t[7], params_after(r, "asset_id") if n == "flashLoan" else asset(), e.at())
        R.imp("announced", f"{n}/always", r.pc, cover, "market state event emitted", r.where())
    R.floor("announcements", k, 11)


# ------------------------------------------------------------------ P20
@rule("P20", "Each published pool figure equals the specified function of the stored state.")
def p20(W, R):
    S, B, V, bi, si = (load(b) for b in ("supplied", "borrowed", "revenue", "borrow_index", "supply_index"))
    tb, ts = mulhu(B, bi), mulhu(S, si)
    util = dsel(iszero(ts), dec(0, 27), divhu(tb, ts))
    prm = load("params")
    br = borrow_rate(util, prm)
    dr = dec(proj(app("deposit_rate", util, br, proj(prm, "reserve_factor_bps")), "raw"), 27)
    want = {
        "capitalUtilisation": raw(util), "borrowRate": raw(br), "depositRate": raw(dr),
        "reserves": app("balance", INT(0), asset(), INT(0)),
        "deltaTime": T.sub(env("now_ms"), load("last_timestamp")),
        "protocolRevenue": raw(resc(mulhu(V, si), decimals())),
        "suppliedAmount": raw(resc(mulhu(S, si), decimals())),
        "borrowedAmount": raw(resc(mulhu(B, bi), decimals())),
        "getSuppliedScaled": raw(S), "getBorrowedScaled": raw(B), "getRevenueScaled": raw(V),
        "getBorrowIndex": raw(bi), "getSupplyIndex": raw(si), "getLastTimestamp": load("last_timestamp"),
    }
    for n, w in want.items():
        r = ep(W, R, n)
        got = r.result()
        if got is None:
            R.ob("figure", n, False, "returns nothing", r.where())
            continue
        if n in ("getSuppliedScaled", "getBorrowedScaled", "getRevenueScaled", "getBorrowIndex", "getSupplyIndex",
                 "capitalUtilisation", "borrowRate", "depositRate", "reserves", "protocolRevenue", "suppliedAmount", "borrowedAmount"):
            got = raw(got)
        R.eq("figure", n, r.pc, got, w, r.where())
    R.floor("figures", len(want), 14)
