"""What the controller's views report."""
from lib import *
from . import rule
import terms as T
import cuts as C
import models as M
from .controller import *
from .pool import projected
from .oracle import guard, formulas, named, EGLD, EGLDNAME
from .liquidation import calls, counted_totals, Recipe, one_plus, dmin

ANYPRICE = T.boolval(TRUE)


def frames(t):
    return [x for x in T.subterms(t) if x.op == "frame"]


def transport(t, to, extra):
    """t with the call sites of its functions renamed to those the same functions have in `to`"""
    names = {}
    for x in frames(to):
        names.setdefault(x.args[-2], []).append(x)
    ren = {x: names[x.args[-2]][0] for x in frames(t) if len(names.get(x.args[-2], ())) == 1}

    def f(x):
        if x.op in ("key", "lid", "lv", "lvb", "site"):
            return mk(x.op, *[T.rebuild(a, f)[0] if isinstance(a, Term) else a for a in x.args])
        return extra(x) or ren.get(x)
    return T.rebuild(t, f)[0]


def everyone(pc, coll):
    """what holds of every element of the list"""
    for i in T.support(pc):
        a = T.ATOMS[i]
        if a[0] == "forall" and a[1] is coll and implies(pc, T.node(i, TRUE, FALSE)):
            yield T.truth(a[2])


def counted(P, cap):
    """without payments the limit is estimated"""
    return dsel(T.lt(INT(0), P), dmin(dec(P, 27), cap), cap)


def rate(r):
    return next(iter(egldusd(r)), dec(app("norate"), 18))


def item(v, lid):
    """the element a mapped list holds for round lid"""
    return M.elem(v, lid)


def refunded(r):
    """the list of tokens sent back to the caller"""
    return [t.pay for t in r.of("transfer")]


def fields(**kw):
    return T.struct("cache", None, tuple(kw), tuple(kw.values()))


def told(R, r, n, q, v):
    """each market's index and prices, as the operations would compute them now"""
    rounds = [lid for lid, l in r.I.loops.items() if l[0] is arg(0)]
    R.ob("every-asset", n + "/once", len(rounds) == 1, f"{len(rounds)} passes over the assets", r.where())
    for lid in rounds[:1]:
        x, tok = item(v, lid), mk("elem", arg(0), lid)
        pc = r.I.loops[lid][4]
        cache = fields(allow_unsafe_price=ANYPRICE, prices_cache=q, egld_usd_price_wad=rate(r), price_aggregator_sc=load("price_aggregator_address"),
                           egld_ticker=EGLDNAME)
        egld = raw(proj(x, "egld_price_wad"))
        mine = band(pc, named(tok, cache)[1])
        for f in ("egld_price_wad", "safe_price_egld_wad", "aggregator_price_egld_wad"):
            R.eq("figure", f"{n}/{f}", mine, raw(proj(x, f)), INT(WADU), r.where())
        formulas(R, r, n, r.where(), tok, cache, band(pc, bnot(named(tok, cache)[1])), egld,
                 (raw(proj(x, "safe_price_egld_wad")), raw(proj(x, "aggregator_price_egld_wad")), proj(x, "within_first_tolerance"), proj(x, "within_second_tolerance")))
        for pre in ("", "safe_price_", "aggregator_price_"):
            f = (lambda u: f"{u}_price_wad") if not pre else (lambda u: f"{pre}{u}_wad")
            e, usd = proj(x, f("egld")), raw(proj(x, f("usd")))
            for l, g in parts(raw(e)):
                for s_, h in parts(proj(e, "scale")):
                    c = band(pc, g, h)
                    if feasible(c):
                        R.eq("figure", f"{n}/{pre}usd", c, usd, raw(usd_of(dec(l, s_), rate(r))), r.where())
        want, sane = projected(load("pools_map", tok), env("now_ms"))
        for s in ("supply_index", "borrow_index"):
            R.eq("figure", f"{n}/{s}", band(pc, sane), raw(proj(x, s + "_ray")), raw(want[s]), r.where())


@rule("C38", "Each account view evaluated as a whole equals the same expression over stored positions, indexes and prices that the operations "
      "enforce; the liquidation estimate lists, deposit by deposit, what liquidate would seize, charge and refund; views change nothing.")
def c38(W, R):
    k = 0
    who = arg(0)
    d, b = load("positions", who, side("Deposit")), load("positions", who, side("Borrow"))

    def run(n):
        r = ep(W, R, n)
        R.ob("pure", n, not [e for e in r.events if e.kind in ("store", "transfer", "burn", "mint", "sendop", "issue")], "a view with an effect", r.where())
        return r, (epochs(r) or [app("mnew")])[0]

    def wads(m, s, q):
        return dec(sumover(keys(m), lambda t: raw(resc(value(M.unsome(M.mget(m, t)), t, s, price(t, ANYPRICE, q)), 18))), 18)

    r, q = run("getHealthFactor")
    cover, debt = worth(d, "Deposit", ANYPRICE, q, LT), worth(b, "Borrow", ANYPRICE, q)
    none = T.eqnum(raw(debt), INT(0))
    R.eq("figure", "getHealthFactor", r.pc, raw(r.result()), select(none, INT(2 * RAY), raw(divhu(cover, debt))), r.where())
    r, q = run("canBeLiquidated")
    cover, debt = worth(d, "Deposit", ANYPRICE, q, LT), worth(b, "Borrow", ANYPRICE, q)
    R.eq("figure", "canBeLiquidated", r.pc, r.result(), T.boolval(band(bnot(T.eqnum(raw(debt), INT(0))), dlt(divhu(cover, debt), dec(RAY, 27)))), r.where())
    for n, f in (("getTotalBorrowInEgld", lambda q: resc(worth(b, "Borrow", ANYPRICE, q), 18)), ("getTotalCollateralInEgld", lambda q: wads(d, "Deposit", q)),
                 ("getLiquidationCollateralAvailable", lambda q: resc(worth(d, "Deposit", ANYPRICE, q, LT), 18)),
                 ("getLtvCollateralInEgld", lambda q: resc(worth(d, "Deposit", ANYPRICE, q, LTV), 18))):
        r, q = run(n)
        R.eq("figure", n, r.pc, raw(r.result()), raw(f(q)), r.where())
        R.eq("precision", n, r.pc, proj(r.result(), "scale"), INT(18), r.where())
    for n, m, s in (("getCollateralAmountForToken", d, "Deposit"), ("getBorrowAmountForToken", b, "Borrow")):
        r, q = run(n)
        tok = arg(1)
        p = M.mget(m, tok)
        dp = proj(price(tok, ANYPRICE, q), "asset_decimals")
        R.imp("exists", n, r.pc, M.is_some(p), "the account has the position", r.where())
        R.eq("figure", n, r.pc, raw(r.result()), raw(resc(mulhu(proj(M.unsome(p), "scaled_amount_ray"), mindex(tok, s)), dp)), r.where())
    for n in ("getTokenPriceEGLD", "getTokenPriceUSD"):
        r, q = run(n)
        e = proj(price(arg(0), ANYPRICE, q), "price_wad")
        R.eq("figure", n, r.pc, raw(r.result()), raw(e if n.endswith("EGLD") else usd_of(e, rate(r))), r.where())
    for n in ("getAllMarkets", "getAllMarketIndexes"):
        r, q = run(n)
        v, lid = r.result(), mk("bnd", 1)
        R.ob("every-asset", n, v.op == "app" and v.args[0] == "mapped" and v.args[1] is arg(0), "not one entry for each asset asked for", r.where())
        if not (v.op == "app" and v.args[0] == "mapped"):
            continue
        x, tok = v.args[2], mk("elem", arg(0), lid)
        pc = band(r.pc, *everyone(r.pc, arg(0)))
        R.eq("figure", n + "/asset", r.pc, proj(x, "asset_id"), tok, r.where())
        pr = price(tok, ANYPRICE, q)
        if n == "getAllMarkets":
            R.eq("figure", n + "/pool", r.pc, proj(x, "market_contract_address"), load("pools_map", tok), r.where())
            R.eq("figure", n + "/egld", r.pc, raw(proj(x, "price_in_egld_wad")), raw(proj(pr, "price_wad")), r.where())
            R.eq("figure", n + "/usd", r.pc, raw(proj(x, "price_in_usd_wad")), raw(usd_of(proj(pr, "price_wad"), rate(r))), r.where())
        else:
            told(R, r, n, q, v)
    n = "liquidationEstimations"
    r, q = run(n)
    real = ep(W, R, "liquidate")
    L = Recipe(who, q, ANYPRICE)
    at = r.where()
    R.imp("exists", n, r.pc, active(who), "an active account", at)
    R.imp("liquidatable", n, r.pc, L.liquidatable(), "the account is below its threshold", at)
    v = r.result()
    cap, bonus = L.estimate()
    R.eq("figure", n + "/bonus", r.pc, raw(proj(v, "bonus_rate_bps")), raw(resc(bonus, 4)), at)
    paid = [x for x in T.subterms(v) if x.op == "fold" and x.args[0] is arg(1) and x.args[4] == ("raw",)]
    R.ob("repaid", n, len(paid) == 1, f"{len(paid)} totals of what is repaid", at)
    theirs = counted_totals(real)
    swap = lambda x: XFER if x is arg(1) else SAFE if x is ANYPRICE else None
    for P in paid[:1]:
        for Q in theirs[:1]:
            R.eq("figure", n + "/max", r.pc, raw(proj(v, "max_egld_payment_wad")), raw(resc(counted(P, cap), 18)), at)
            R.ob("as-liquidate", n + "/repaid", transport(P, Q, swap) is Q, "counts repayments differently from liquidate", at)
        lists = proj(v, "seized_collaterals"), proj(v, "protocol_fees")
        tok, lid = mk("elem", keys(L.d), mk("bnd", 9)), mk("bnd", 9)
        pr = price(tok, ANYPRICE, q)
        have = mulhu(proj(M.unsome(M.mget(L.d, tok)), "scaled_amount_ray"), mindex(tok, "Deposit"))
        want = mulhu(mulhu(L.share(tok), counted(P, cap)), one_plus(bonus))
        units = dmin(divhu(want, proj(pr, "price_wad")), have)
        fee = mulhu(dsub(units, divhu(units, one_plus(bonus))), proj(M.unsome(M.mget(L.d, tok)), "liquidation_fees_bps"))
        for what, l, w in (("seized", lists[0], units), ("fee", lists[1], fee)):
            R.ob("every-deposit", f"{n}/{what}", l.op == "app" and l.args[0] == "mapped" and l.args[1] is keys(L.d), "not one entry for each deposit", at)
            if l.op == "app" and l.args[0] == "mapped":
                x = item(l, lid)
                R.eq("figure", f"{n}/{what}/token", r.pc, proj(x, "token_identifier"), tok, at)
                R.eq("figure", f"{n}/{what}/amount", r.pc, proj(x, "amount"), raw(resc(w, proj(pr, "asset_decimals"))), at)
    sent = [t for t in real.of("transfer") if t.pay.op != "struct"]
    R.ob("refund-list", n, len(sent) == 1, f"{len(sent)} lists of refunds in liquidate", at)
    for t in sent[:1]:
        theirs_, mine = parts(t.pay), parts(proj(v, "refunds"))
        named_ = [(transport(x, t.pay, swap), g) for x, g in mine]
        R.ob("as-liquidate", n + "/refunds", {x for x, _ in named_} == {x for x, _ in theirs_} and len(mine) <= 2, "other refunds than liquidate returns", at)


def parts(t):
    return [(l, guard(t, l)) for l in T.leaves(t.args[0])] if t.op == "gate" else [(t, TRUE)]
