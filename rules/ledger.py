"""The controller's own books, and what it asks of the pools."""
from lib import *
from . import rule
import terms as T
import cuts as C
import models as M
from .controller import *

RISK = (LT, LTV, "liquidation_bonus_bps", "liquidation_fees_bps")


def everyitem(R, what, n, r, e, text, unless=FALSE):
    """the loop around e runs, is never left early, and e happens in each round"""
    if not e.loops or e.loops[-1] not in r.I.loops:
        R.ob(what, n, False, "not in a loop over the items", e.at())
        return
    coll, pc, brk, end, bpc = r.I.loops[e.loops[-1]]
    R.imp(what, n, bpc, bor(e.pc, unless), text, e.at())
    R.ob(what + "-no-break", n, not feasible(brk), "the loop over the items can be left early", e.at())
    outer = r.I.loops[e.loops[-2]][4] if len(e.loops) > 1 else r.pc
    R.imp(what + "-reached", n, band(outer, bnot(vempty(coll))), bor(pc, unless), "the loop over the items is run", e.at())


def completes(r, e):
    """the event happens, and neither the loop rounds it is in nor the transaction are rolled back"""
    return band(e.pc, r.rounds(e)) if e.loops else band(e.pc, r.pc)


def sides(k, s):
    return k.args[2] is side(s) if len(k.args) == 3 else False


def sameaccount(pc, k, p):
    return same(pc, k.args[1], proj(p, "account_nonce")) and same(pc, k.args[2], proj(p, "position_type"))


def visited_once(r, st, m, tok):
    """m is a map as left by earlier rounds of a loop over its own keys in which each round only touches the entry it
    visits: at the key being visited it still is what it was before the loop"""
    if m.op != "lv" or tok.op != "elem" or tok.args[1] is not m.args[0]:
        return None
    for (l, k, p), (init, back, bpc) in r.I.loopinfo.items():
        if mk("lv", l, k, p) is m and tok.args[0] is keys(init):
            mine = [s for s in st if s.value.op == "app" and s.value.args[1] is m]
            if mine and all(s.mkey is tok for s in mine):
                return init
    return None


def each(coll, f):
    """f holds of every element the list can have"""
    out = []
    return C.elements(coll, out, frozenset()) and bool(out) and all(f(y) for y, o in out)


def paired(p, t, pr, tok):
    """p is the price of token t, or both are those of one earlier element of the list"""
    q = inner(p)
    if q.op == "app" and q.args[0] == "price":
        return same(TRUE, q.args[1], t) and p is proj(q, "price_wad")
    return q.op == "app" and q.args[0] == "vget" and q.args[1].op in ("lv", "lvb") and p is at(pr, q) and t is at(tok, q)


def at(t, y):
    """the projection t of a list element, taken of the element y"""
    return y if t.op != "proj" else proj(at(t.args[0], y), t.args[1])


def inner(t):
    while t.op == "proj":
        t = t.args[0]
    return t


@rule("C18", "After every pool call on a position the account's entry for that side and asset becomes exactly the position the pool "
      "returned, or is dropped exactly when that is empty; positions handed to a pool are the stored ones (new ones start empty); no "
      "other write touches positions, except that a threshold refresh rewrites risk parameters only.")
def c18(W, R):
    k = 0
    for n, r, eff in mutating(W, R):
        calls = [e for e in r.of("call") if cname(e) in C.POSARG and cname(e) != "seizePosition"]
        st = r.stores("positions")
        matched = set()
        for e in calls:
            k += 1
            p = e.args[C.POSARG[cname(e)]]
            tok, c = proj(p, "asset_id"), f"{n}/{cname(e)}@{e.seq}"
            c = f"{n}/{cname(e)}"
            grows = cname(e) in OPENS
            got, prev = FALSE, None
            for s in st:
                if s.seq < e.seq or s.d.get("op") not in ("insert", "remove"):
                    continue
                both = band(s.pc, e.pc)
                if not feasible(both) or not same(both, s.mkey, tok) or not sameaccount(both, s.key, p):
                    continue
                nxt = [x for x in calls if e.seq < x.seq < s.seq and same(s.pc, e.ret, x.ret)]
                if s.d["op"] == "insert":
                    v = s.value.args[3] if s.value.op == "app" and s.value.args[0] == "minsert" else None
                    if v is None or not same(s.pc, v, e.ret):
                        continue
                    if not grows:
                        R.imp("kept-nonempty", c, s.pc, bnot(T.eqnum(raw(proj(e.ret, "scaled_amount_ray")), INT(0))),
                              "a position kept after leaving funds is not empty", s.at())
                else:
                    if not implies(s.pc, T.eqnum(raw(proj(e.ret, "scaled_amount_ray")), INT(0))):
                        continue
                matched.add(s.seq)
                prev = s.value.args[1]
                got = bor(got, s.pc)
            R.imp("recorded", c, completes(r, e), got, "the account's entry becomes the position the pool returned", e.at())
            if prev is None:
                continue
            old = M.mget(prev, tok)
            init = visited_once(r, st, prev, tok)
            if init is not None and not same(e.pc, raw(proj(p, "scaled_amount_ray")), raw(proj(M.unsome(old), "scaled_amount_ray"))):
                old = M.mget(init, tok)
                grows_ = True               # the key being visited is in the map
            else:
                grows_ = grows
            have = raw(proj(M.unsome(old), "scaled_amount_ray"))
            want = select(M.is_some(old), have, INT(0)) if grows else have
            R.eq("current", c, e.pc, raw(proj(p, "scaled_amount_ray")), want, e.at())
            if not grows_:
                R.imp("exists", c, e.pc, M.is_some(old), "the position exists", e.at())
            R.eq("right-side", c, e.pc, proj(p, "position_type"), side("Deposit" if cname(e) in ("supply", "withdraw") else "Borrow"), e.at())
        for s in st:
            if s.seq in matched:
                continue
            k += 1
            c = f"{n}/{s.d.get('op')}"
            if s.d.get("op") == "clear" and n == "cleanBadDebt":
                continue
            if s.d.get("op") == "insert" and n == "updateAccountThreshold":
                prev, tok, v = s.value.args[1:4]
                old = M.unsome(M.mget(prev, tok))
                R.imp("rerated-exists", c, s.pc, M.is_some(M.mget(prev, tok)), "the position exists", s.at())
                for f in ("scaled_amount_ray", "asset_id", "account_nonce", "position_type"):
                    R.eq("rerated", f"{c}/{f}", s.pc, proj(v, f), proj(old, f), s.at())
                continue
            R.ob("only-pool-results", c, False, "writes a position that is not the pool's result for it", s.at())
    R.floor("position updates", k, 14)


@rule("C19", "Every pool call goes to the pool on record for the position's asset, values it at that asset's price, and carries payments "
      "in that asset only; calls that pay out name the caller, or the controller itself inside a strategy, as the receiver.")
def c19(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, *C.POSARG):
        k += 1
        c = f"{n}/{cname(e)}"
        p = e.args[C.POSARG[cname(e)]]
        tok = proj(p, "asset_id")
        R.eq("pool", c, e.pc, e.to, load("pools_map", tok), e.at())
        pr = e.args[-1]
        ok = any(same(e.pc, pr, proj(q, "price_wad")) for q in prices(r, tok))
        x = inner(pr)
        if not ok and x.op == "elem" and inner(tok) is x:      # a list pairing payments with their prices
            ok = each(x.args[0], lambda y: paired(at(pr, y), at(tok, y), pr, tok))
        R.ob("price", c, ok, "the price passed is not the price of the position's asset", e.at())
        if cname(e) in ("supply", "repay"):
            R.eq("paid-in-asset", c, e.pc, proj(e.pay, "token_identifier"), tok, e.at())
            R.eq("paid-fungible", c, e.pc, proj(e.pay, "token_nonce"), INT(0), e.at())
        else:
            R.ob("no-payment", c, e.pay is NOPAY, "sends a payment", e.at())
    R.floor("pool calls", k, 14)


FIRSTPAY = app("vget", XFER, INT(0))


@rule("C20", "supply, repay, borrow and withdraw make one pool call for each payment received (the account token aside) or each item "
      "requested, for exactly that token and amount; payouts go to the caller.")
def c20(W, R):
    isacct = T.eqv(proj(FIRSTPAY, "token_identifier"), ACCT)
    rest = app("slice", XFER, INT(1), M.vlen(XFER))
    for n in ("supply", "repay", "borrow", "withdraw"):
        r = ep(W, R, n)
        calls = [e for e in r.of("call") if cname(e) in C.POSARG]
        want = [e for e in calls if cname(e) == n]
        R.ob("one-call", n, len(want) == len(calls) == 1, f"makes pool calls {[cname(e) for e in calls]}", r.where())
        for e in want:
            i = C.POSARG[n]
            x = proj(e.pay, "amount") if n in ("supply", "repay") else raw(e.args[1])
            x = M.unwrap_amount(x) if hasattr(M, "unwrap_amount") else x
            item = inner(x)
            if item.op != "elem":
                R.ob("each-item", n, False, "the amount is not that of a payment or request", e.at())
                continue
            lid, coll = item.args[1], item.args[0]
            R.eq("amount", n, e.pc, x, proj(item, "amount"), e.at())
            R.eq("token", n, e.pc, proj(e.args[i], "asset_id"), proj(item, "token_identifier"), e.at())
            if n == "supply":
                R.eq("all-payments", n, e.pc, coll, select(isacct, rest, XFER), e.at())
            elif n == "repay":
                R.eq("all-payments", n, e.pc, coll, XFER, e.at())
            else:
                R.ob("all-requests", n, coll.op == "arg", "does not go through the requested list", e.at())
                R.eq("payee", n, e.pc, e.args[0], env("caller"), e.at())
                R.eq("decimals", n, e.pc, proj(e.args[1], "scale"), proj(prices(r, proj(item, "token_identifier"))[0], "asset_decimals"), e.at())
            everyitem(R, "every-item", n, r, e, "each item reaches its pool")


# ------------------------------------------------------------------ strategies: where the tokens go
def back(e):
    """payments a call sent back"""
    return proj(mk("backtransfers", e.ret), "payments")


def received(e, tok):
    """how much of a token a call sent back"""
    return sumover(back(e), lambda x: select(T.eqv(tok, proj(x, "token_identifier")), proj(x, "amount"), INT(0)))


def pay_(tok, amount):
    return T.struct(M.PAY, None, M.PAYF, [tok, INT(0), amount])


ROUTER = load("swap_router_address")


def refunds(R, r, n, e, wanted):
    """everything the router sent back in other tokens goes to the caller"""
    out = FALSE
    rest = None
    for t in r.of("transfer"):
        x = t.pay
        if x.op == "app" and x.args[0] == "filtered" and x.args[1] is back(e):
            rest = x
            c = T.truth(x.args[3])
            other = bnot(T.eqv(wanted, proj(x.args[2], "token_identifier")))
            R.ob("other-tokens", n, implies(c, other) and implies(other, c), "not exactly the other tokens are returned", t.at())
            R.eq("refund-to", n, t.pc, t.to, env("caller"), t.at())
            out = bor(out, t.pc)
    if rest is None:
        R.ob("refund", n, False, "tokens left over by the router are not returned", e.at())
    else:
        R.imp("refund", n, band(r.pc, e.pc, bnot(T.eqnum(M.vlen(rest), INT(0)))), out, "tokens left over by the router are returned", e.at())


def listof(e):
    x = inner(proj(e.pay, "amount"))
    return (x.args[0], x.args[1]) if x.op == "elem" else (None, None)


@rule("C21", "Strategies: what was just borrowed or withdrawn (plus the initial payment) is exactly what is sent to the configured swap "
      "router; all the wanted token it returns is supplied or repaid on the account, every other token goes back to the caller.")
def c21(W, R):
    rest = app("slice", XFER, INT(1), M.vlen(XFER))
    A = {"swapDebt": (2, 0), "swapCollateral": (0, 2), "repayDebtWithCollateral": (0, 2), "multiply": (3, 1)}
    for n, (i_from, i_to) in A.items():
        r = ep(W, R, n)
        frm, to = arg(i_from), arg(i_to)
        swaps = [e for e in r.of("call") if not topool(e)]
        R.ob("swaps", n, len(swaps) == (2 if n == "multiply" else 1), f"{len(swaps)} router calls", r.where())
        for e in swaps:
            R.eq("router", n, e.pc, e.to, ROUTER, e.at())
            R.eq("fungible", n, e.pc, proj(e.pay, "token_nonce"), INT(0), e.at())
            refunds(R, r, n, e, to)
        if not swaps:
            continue
        x = swaps[-1]
        cs = [e for e in r.of("call") if cname(e) == "createStrategy"]
        wd = [e for e in r.of("call") if cname(e) == "withdraw" and implies(e.pc, T.eqv(e.args[0], env("self")))]
        new = cs if n in ("swapDebt", "multiply") else wd
        R.ob("source", n, len(new) == 1, f"{len(new)} calls provide the tokens to swap", r.where())
        if len(new) != 1:
            continue
        src = new[0]
        p = src.args[C.POSARG[cname(src)]]
        R.eq("source-token", n, src.pc, proj(p, "asset_id"), frm, src.at())
        R.eq("source-amount", n, src.pc, raw(src.args[1]), arg(2 if n == "multiply" else 1), src.at())
        if src in cs:
            R.imp("one-back", n, band(r.pc, src.pc), band(T.eqnum(M.vlen(back(src)), INT(1)),
                                                         T.eqv(proj(app("vget", back(src), INT(0)), "token_identifier"), frm)),
                  "exactly the borrowed tokens came back", src.at())
            got = proj(app("vget", back(src), INT(0)), "amount")
        else:
            got = received(src, frm)
        R.eq("swapped-token", n, x.pc, proj(x.pay, "token_identifier"), frm, x.at())
        if n == "multiply":
            first = FIRSTPAY
            none = T.eqv(proj(first, "token_identifier"), ACCT)
            isdebt = band(bnot(none), T.eqv(proj(first, "token_identifier"), frm), bnot(T.eqv(proj(first, "token_identifier"), to)))
            iscol = band(bnot(none), T.eqv(proj(first, "token_identifier"), to))
            dd = proj(app("oracle_cfg", frm), "asset_decimals")
            own = proj(first, "amount")
            lent = M.rescale(dec(got, proj(price(frm, SAFE, epochs(r)[0]), "asset_decimals")), dd)
            owed = T.add(select(isdebt, own, INT(0)), raw(lent))
            R.eq("swapped-amount", n, x.pc, proj(x.pay, "amount"), owed, x.at())
            pre = swaps[0]
            R.eq("initial-swap", n, pre.pc, pre.pay, pay_(proj(first, "token_identifier"), own), pre.at())
            R.imp("initial-needed", n, band(r.pc, bnot(none)), bor(isdebt, iscol, pre.pc), "an initial payment in a third token is swapped", pre.at())
            R.imp("initial-only", n, band(r.pc, bnot(none)), T.eqnum(M.vlen(XFER), INT(1)), "one payment opens a position", r.where())
            R.imp("initial-none", n, band(r.pc, none), T.eqnum(M.vlen(rest), INT(0)), "no payment beside the account token", r.where())
            add = select(iscol, own, select(bor(isdebt, none), INT(0), received(pre, to)))
            for e in r.of("call"):
                if cname(e) == "supply":
                    R.eq("supplied-token", n, e.pc, proj(e.pay, "token_identifier"), to, e.at())
                    R.eq("supplied-amount", n, e.pc, proj(e.pay, "amount"), T.add(received(x, to), add), e.at())
                    if implies(r.pc, e.pc):
                        R.ob("supplied", n, True, "", e.at())
                    else:
                        everyitem(R, "supplied", n, r, e, "the swapped collateral is supplied")
            continue
        R.eq("swapped-amount", n, x.pc, proj(x.pay, "amount"), got, x.at())
        out = received(x, to)
        if n == "repayDebtWithCollateral":
            out = select(T.eqv(frm, to), got, out)
        sinks = [e for e in r.of("call") if cname(e) in ("supply", "repay")]
        R.ob("sink", n, len(sinks) == 1, f"{len(sinks)} uses of the swapped tokens", r.where())
        for e in sinks:
            coll, lid = listof(e)
            if coll is None:
                R.ob("all-used", n, False, "the payments are not gone through", e.at())
                continue
            R.eq("all-used", n, e.pc, coll, app("push", rest, pay_(to, out)), e.at())
            everyitem(R, "every-payment", n, r, e, "each payment reaches its pool")


# ------------------------------------------------------------------ limits on the number of positions, loan fees
def maps_before(r, key):
    yield mk("sload", key, SELF)
    for (l, k, p), (init, back_, bpc) in r.I.loopinfo.items():
        if k.op == "key" and k.args[0] == "S" and k.args[1] is key and not p:
            yield init


@rule("C22", "Each operation that can add positions leaves no more positions on that side than the configured limit.")
def c22(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, *OPENS):
        k += 1
        s = "Deposit" if cname(e) == "supply" else "Borrow"
        lim = proj(load("position_limits"), "max_supply_positions" if s == "Deposit" else "max_borrow_positions")
        who = posaccount(e)
        key = skey("positions", who, side(s))
        if cname(e) == "createStrategy":
            after = posfinal(r, who, s)
            R.imp("limit", f"{n}/{s}", r.pc, bnot(T.lt(lim, M.vlen(after))), "positions stay within the limit", e.at())
            continue
        tok = postoken(e)
        x = inner(tok)
        if x.op == "elem":
            new = lambda m: sumover(x.args[0], lambda q: select(has(m, q), INT(0), INT(1)))
        else:
            new = lambda m: select(M.is_some(M.mget(m, tok)), INT(0), INT(1))
        ok = any(must(e.pc, bnot(T.lt(lim, T.add(M.vlen(m), new(m))))) for m in maps_before(r, key))
        R.ob("limit", f"{n}/{s}", ok, "the number of positions this can leave is not held to the limit", e.at())
    R.floor("position openings", k, 6)


def has(m, q):
    return M.is_some(M.mget(m, proj(q, "token_identifier")))


def feeof(tok):
    return proj(config(tok), "flashloan_fee_bps")


@rule("C23", "A controller flash loan is lent only if the asset allows it, with a positive amount, to a contract on this shard and a real "
      "endpoint, at the asset's configured fee and its own pool; a strategy borrow is charged exactly the configured fee of the asset.")
def c23(W, R):
    r = ep(W, R, "flashLoan")
    loans = [e for e in r.of("call") if cname(e) == "flashLoan"]
    R.ob("one-loan", "flashLoan", len(loans) == 1 and len(r.of("call")) == 1, f"{[cname(e) for e in r.of('call')]} calls", r.where())
    for e in loans:
        tok = arg(0)
        R.eq("asset", "flashLoan", e.pc, e.args[0], tok, e.at())
        R.eq("pool", "flashLoan", e.pc, e.to, load("pools_map", tok), e.at())
        R.eq("amount", "flashLoan", e.pc, raw(e.args[1]), arg(1), e.at())
        R.imp("positive", "flashLoan", e.pc, T.lt(INT(0), arg(1)), "the amount is positive", e.at())
        R.imp("enabled", "flashLoan", e.pc, T.truth(proj(config(tok), "is_flashloanable")), "flash loans are enabled for the asset", e.at())
        R.eq("fee", "flashLoan", e.pc, e.args[5], feeof(tok), e.at())
        R.eq("borrower", "flashLoan", e.pc, e.args[2], arg(2), e.at())
        R.imp("same-shard", "flashLoan", e.pc, T.eqnum(app("get_shard_of_address", arg(2)), app("get_shard_of_address", env("self"))), "the borrower is on the same shard", e.at())
        R.imp("endpoint", "flashLoan", e.pc, band(bnot(T.eqnum(app("len", arg(3)), INT(0))), bnot(T.truth(app("is_builtin_function", arg(3))))),
              "the endpoint is named and not a builtin function", e.at())
        R.eq("endpoint", "flashLoan", e.pc, e.args[3], arg(3), e.at())
        R.ob("price", "flashLoan", any(same(e.pc, e.args[-1], proj(q, "price_wad")) for q in prices(r, tok)), "another price is passed", e.at())
    for n, r, e in pool_calls(W, R, "createStrategy"):
        tok = postoken(e)
        a, f = raw(e.args[1]), raw(feeof(tok))
        fee = e.args[2]
        R.eq("strategy-fee", n, e.pc, raw(fee), T.mul_g(a, f), e.at())
        R.eq("strategy-fee", n + "/precision", e.pc, proj(fee, "scale"), T.add(proj(e.args[1], "scale"), INT(4)), e.at())


# ------------------------------------------------------------------ risk parameters carried by positions
def current(a, tok, f):
    """the risk parameter as configured now for an account with attributes a"""
    listed = band(inemode(a), M.is_some(emap(a)), M.is_some(easset(a, tok)))
    base = proj(config(tok), f)
    return select(listed, proj(M.unsome(emap(a)), f), base) if f != "liquidation_fees_bps" else base


EASY = (LTV, "liquidation_bonus_bps", "liquidation_fees_bps")


@rule("C24", "A supply takes the account's currently configured LTV, bonus and fee (and, for a new position, threshold) and keeps an existing "
      "threshold; a threshold refresh changes the threshold only when asked to and then only if health stays at least 1.05, otherwise only "
      "the other three.")
def c24(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "supply"):
        p = e.args[0]
        tok, who = postoken(e), posaccount(e)
        for f in EASY:
            k += 1
            R.ob("supply", f"{n}/{f}", anyattrs(r, n, who, lambda a: same(e.pc, raw(proj(p, f)), raw(current(a, tok, f)))),
                 "is not the configured value", e.at())
        olds = [M.mget(m, tok) for m in maps_of(r, skey("positions", who, side("Deposit")))]
        ok = any(anyattrs(r, n, who, lambda a: same(e.pc, raw(proj(p, LT)), raw(select(M.is_some(o), proj(M.unsome(o), LT), current(a, tok, LT))))) for o in olds)
        R.ob("supply", f"{n}/{LT}", ok, "is neither the recorded threshold nor, for a new position, the configured one", e.at())
    r = ep(W, R, "updateAccountThreshold")
    risky = T.truth(arg(1))
    for s in r.stores("positions"):
        if s.d.get("op") != "insert":
            continue
        prev, tok, v = s.value.args[1:4]
        who = s.key.args[1]
        old = M.unsome(M.mget(prev, tok))
        a = load("account_attributes", who)
        for f in EASY + (LT,):
            k += 1
            c = risky if f == LT else bnot(risky)
            R.eq("refresh", f, s.pc, raw(proj(v, f)), raw(select(c, current(a, tok, f), proj(old, f))), s.at())
        R.eq("refresh", "asset", s.pc, tok, arg(0), s.at())
        b = load("positions", who, side("Borrow"))
        done = band(completes(r, s), risky, bnot(vempty(b)))
        k += 1
        ok = any(must(done, healthy(s.value, b, SAFE, q, RAY + RAY // 20)) for q in epochs(r))
        R.ob("refresh", "health", ok, "a new threshold can leave the health factor below 1.05", s.at())
    R.floor("risk parameter writes", k, 14)


def maps_of(r, key):
    yield from maps_before(r, key)
    for (l, k, p), (init, back_, bpc) in r.I.loopinfo.items():
        if k.op == "key" and k.args[0] == "S" and k.args[1] is key and not p:
            yield mk("lv", l, k, p)
