"""The lending controller."""
from lib import *
from . import rule
import terms as T
import cuts as C
import models as M
from interp import Interp, summed

CT = "controller"
USER = ["supply", "withdraw", "borrow", "repay", "liquidate", "flashLoan", "updateAccountThreshold", "updateIndexes", "cleanBadDebt",
        "multiply", "swapDebt", "swapCollateral", "repayDebtWithCollateral"]
EFF = ("store", "transfer", "call", "burn", "mint", "sendop", "issue")
PAUSED = T.truth(load("pause_module:paused"))
FLASH = T.truth(load("flash_loan_ongoing"))
OWNER = T.eqv(env("caller"), env("owner"))
ACCT = app("token_id", load("account"))
XFER = env("transfers")


def ep(W, R, n):
    r = W.ep(CT, n)
    R.use(r)
    return r


def mutating(W, R):
    """(name, run, effects) of every controller entry point with an effect"""
    for n in W.all_eps(CT):
        if n in ("init", "upgrade"):
            continue
        r = W.ep(CT, n)
        eff = [e for e in r.events if e.kind in EFF]
        if n.startswith("get") and not any(e.kind in ("store", "transfer", "burn", "mint", "sendop") for e in eff):
            continue
        if eff or n in USER:
            yield n, R.use(r), eff


def cname(e):
    x = e.endpoint
    if isinstance(x, T.Term):
        return x.args[0] if x.op == "bytes" else T.show(x, 2)
    return str(x)


def pool_calls(W, R, *names):
    for n in W.all_eps(CT):
        r = W.ep(CT, n)
        for e in r.of("call"):
            if cname(e) in names:
                yield n, R.use(r), e


def side(s):
    return mk("struct", "common_structs::AccountPositionType", s, ())


# ------------------------------------------------------------------ C01..C03: who may act, and when
@rule("C01", "Every user-facing controller entry point completes, and has each of its effects, only while the contract is not paused; "
      "a code upgrade leaves it paused.")
def c01(W, R):
    k = 0
    for n in USER:
        r = ep(W, R, n)
        k += 1
        R.ob("completes", n, r.ok and r.pc is not FALSE, "the entry point can never succeed", r.where())
        R.imp("not-paused", n, r.pc, bnot(PAUSED), "not paused", r.where())
        for e in r.events:
            if e.kind in EFF:
                R.imp("not-paused", f"{n}/{e.kind}", e.pc, bnot(PAUSED), "not paused", e.at())
    r = ep(W, R, "upgrade")
    R.eq("upgrade-pauses", "upgrade", r.pc, r.final("pause_module:paused"), T.boolval(TRUE), r.where())
    R.floor("user entry points", k, 13)


@rule("C02", "Every user-facing entry point requires that no flash loan is in progress; the flag is up while the borrower runs and "
      "down again when the loan completes, and nothing else touches it.")
def c02(W, R):
    for n in USER:
        r = ep(W, R, n)
        R.imp("no-reentry", n, r.pc, bnot(FLASH), "no flash loan in progress", r.where())
        for e in r.events:
            if e.kind in EFF:
                R.imp("no-reentry", f"{n}/{e.kind}", e.pc, bnot(FLASH), "no flash loan in progress", e.at())
    for n, r, eff in mutating(W, R):
        st = r.stores("flash_loan_ongoing")
        if n != "flashLoan":
            R.ob("flag-untouched", n, not st, "writes the flash-loan flag", r.where())
    r = ep(W, R, "upgrade")
    R.ob("flag-untouched", "upgrade", not r.stores("flash_loan_ongoing"), "writes the flash-loan flag", r.where())
    r = ep(W, R, "flashLoan")
    R.eq("flag-down-after", "flashLoan", r.pc, r.final("flash_loan_ongoing"), T.boolval(FALSE), r.where())
    calls = r.of("call")
    R.ob("outside-call", "flashLoan", len(calls) >= 1, "no call to the pool", r.where())
    for e in calls:
        up = [s for s in r.stores("flash_loan_ongoing") if s.seq < e.seq]
        R.ob("flag-up-during", "flashLoan/" + cname(e), bool(up) and same(e.pc, up[-1].value, T.boolval(TRUE)) and must(e.pc, up[-1].pc),
             "the flash-loan flag is not up when the outside call is made", e.at())


@rule("C03", "Every controller entry point with an effect that is not one of the user operations is dominated by caller == owner.")
def c03(W, R):
    k = 0
    for n, r, eff in mutating(W, R):
        if n in USER or n in ("getAllMarketIndexes", "claimRevenue"):
            continue
        k += 1
        R.imp("owner-only", n, r.pc, OWNER, "caller is the owner", r.where())
        for e in eff:
            R.imp("owner-only", f"{n}/{e.kind}", e.pc, OWNER, "caller is the owner", e.at())
    for n in ("registerAccountToken",):
        r = ep(W, R, n)
        R.imp("owner-only", n, r.pc, OWNER, "caller is the owner", r.where())
    R.floor("owner entry points", k, 19)


# ------------------------------------------------------------------ C04: account ownership
FIRST = app("vget", XFER, INT(0))
SENT = {"withdraw": env("payment"), "borrow": env("payment"), "swapDebt": FIRST, "swapCollateral": FIRST,
        "repayDebtWithCollateral": FIRST, "multiply": FIRST, "supply": FIRST}
ANYONE = ["repay", "liquidate", "cleanBadDebt", "updateAccountThreshold"]


def lifted(n, f):
    """the condition f(n), case by case over the values n takes"""
    return T.map_leaves(T.ungate(n), f)


def active(n):
    return lifted(n, lambda l: M.shas(load("accounts"), l))


def attrs_of(p):
    return app("decode_attributes", app("get_esdt_token_data", env("self"), proj(p, "token_identifier"), proj(p, "token_nonce")))


def owns(p, n):
    """payment p is the token of the active account n, carrying the attributes on record"""
    return lifted(n, lambda l: band(T.eqnum(proj(p, "token_nonce"), l), T.eqv(proj(p, "token_identifier"), ACCT), active(l),
                                    T.eqv(attrs_of(p), load("account_attributes", l))))


def minted(r, n):
    return lifted(n, lambda l: bor(*[band(T.eqnum(l, e.nonce), e.pc) for e in r.of("mint")]))


def touched(r):
    """accounts whose positions an entry point writes or hands to a pool: (event, nonce, what)"""
    for e in r.stores("positions"):
        yield e, e.key.args[1], "positions"
    for e in r.of("call"):
        i = C.POSARG.get(cname(e))
        if i is not None:
            yield e, proj(e.args[i], "account_nonce"), cname(e)


@rule("C04", "Each write to, or pool call on, an account's positions by an owner operation is dominated by receipt of that account's "
      "token (right collection, active account, recorded attributes) or by its creation in the same call; operations open to anyone "
      "require an active account.")
def c04(W, R):
    k = 0
    for n, p in SENT.items():
        r = ep(W, R, n)
        for e, who, what in touched(r):
            k += 1
            c = bor(owns(p, who), minted(r, who))
            if n == "supply":       # anybody may add to an active account
                c = bor(c, active(who))
            R.imp("account-proved", f"{n}/{what}", e.pc, c, "the caller sent this account's token", e.at())
    for n in ANYONE:
        r = ep(W, R, n)
        for e, who, what in touched(r):
            k += 1
            R.imp("account-active", f"{n}/{what}", e.pc, active(who), "the account is active", e.at())
    for n, r, eff in mutating(W, R):
        if n not in SENT and n not in ANYONE:
            R.ob("no-positions", n, not list(touched(r)), "touches positions although it is not an account operation", r.where())
    R.floor("position accesses", k, 25)


def pos(n, s):
    return skey("positions", n, side(s))


def posfinal(r, n, s):
    return r.final("positions", n, side(s))


def vempty(m):
    return T.eqnum(M.vlen(m), INT(0))


@rule("C05", "An account token sent along is returned to its sender or burnt on every successful path; it is burnt, and the account "
      "dropped from the records, exactly when neither supply nor debt is left; a new account is recorded with the attributes it was "
      "minted with and goes to the caller.")
def c05(W, R):
    k = 0
    for n, p in SENT.items():
        r = ep(W, R, n)
        sent = band(r.pc, T.eqv(proj(p, "token_identifier"), ACCT))
        back = [e for e in r.of("transfer") if feasible(band(e.pc, T.eqv(e.pay, p)))]
        out = FALSE
        for e in back:
            R.imp("to-sender", f"{n}", band(e.pc, T.eqv(e.pay, p)), T.eqv(e.to, env("caller")), "returned to the caller", e.at())
            out = bor(out, e.pc)
        for e in r.of("burn"):
            k += 1
            R.eq("burn-sent", n, e.pc, e.nonce, proj(p, "token_nonce"), e.at())
            for s in ("Deposit", "Borrow"):
                R.imp("burn-empty", f"{n}/{s}", e.pc, vempty(posfinal(r, proj(p, "token_nonce"), s)), "no position left", e.at())
            out = bor(out, e.pc)
        R.imp("returned-or-burnt", n, sent, out, "the account token is returned or burnt", r.where())
    for n, r, eff in mutating(W, R):
        for e in r.of("mint"):
            k += 1
            R.eq("mint-one", n, e.pc, e.args[1], INT(1), e.at())
            ins = [s for s in r.stores("accounts") if s.d.get("op") == "insert"]
            R.imp("mint-recorded", n, band(r.pc, e.pc), bor(*[band(s.pc, T.eqv(s.mkey, e.nonce)) for s in ins]), "recorded as active", e.at())
            at = [s for s in r.stores("account_attributes") if s.d.get("op") != "clear"]
            R.imp("mint-attributes", n, band(r.pc, e.pc), bor(*[band(s.pc, T.eqv(s.key.args[1], e.nonce), T.eqv(s.value, e.args[5])) for s in at]),
                  "stored attributes are the minted ones", e.at())
            R.imp("mint-given", n, band(r.pc, e.pc), bor(*[band(t.pc, T.eqv(t.to, env("caller")), T.eqnum(proj(t.pay, "token_nonce"), e.nonce),
                                                              T.eqv(proj(t.pay, "token_identifier"), ACCT)) for t in r.of("transfer")]),
                  "sent to the caller", e.at())
        burn = bor(*[e.pc for e in r.of("burn")])
        for e in r.stores("accounts") + r.stores("account_attributes"):
            k += 1
            if e.d.get("op") in ("remove", "clear"):
                if n == "cleanBadDebt":
                    continue
                R.imp("drop-with-burn", f"{n}/{keybase(e.key)}", e.pc, burn, "the account token is burnt", e.at())
            else:
                R.imp("record-with-mint", f"{n}/{keybase(e.key)}", e.pc, bor(*[m.pc for m in r.of("mint")]), "an account was created", e.at())
        if burn is not FALSE:
            for b, op in (("accounts", "remove"), ("account_attributes", "clear")):
                R.imp("burn-drops", f"{n}/{b}", band(r.pc, burn), bor(*[e.pc for e in r.stores(b) if e.d.get("op") == op]), f"{b} entry dropped",
                      r.where())
    R.floor("lifecycle effects", k, 14)


# ------------------------------------------------------------------ valuations
_LID = mk("lid", mk("const", "spec"), 0)


def sumover(coll, f):
    """sum of f(element) over a collection"""
    g = f(mk("elem", coll, _LID))
    return summed(coll, g, _LID, Interp.generalise(None, g, _LID))


def keys(m):
    return app("keys", m)


def price(tok, allow, epoch):
    return app("price", tok, allow, epoch)


def mindex(tok, s):
    return proj(app("mindex", tok), "supply_index_ray" if s == "Deposit" else "borrow_index_ray")


def value(position, tok, s, pr):
    """EGLD value of a position at full precision"""
    return mulhu(mulhu(proj(position, "scaled_amount_ray"), mindex(tok, s)), proj(pr, "price_wad"))


def worth(m, s, allow, epoch, weight=None):
    """EGLD value of all positions in the map m (optionally weighted by a risk parameter)"""
    def one(t):
        p = M.unsome(M.mget(m, t))
        v = value(p, t, s, price(t, allow, epoch))
        return raw(mulhu(v, proj(p, weight)) if weight else v)
    return dec(sumover(keys(m), one), 27)


RAY = 10 ** 27
LT, LTV = "liquidation_threshold_bps", "loan_to_value_bps"
SAFE = T.boolval(FALSE)


def healthy(d, b, allow, epoch, floor=RAY):
    """no debt, or liquidation-weighted collateral over debt (rounded half up) at least one"""
    col, owed = worth(d, "Deposit", allow, epoch, LT), worth(b, "Borrow", allow, epoch)
    return bor(T.eqnum(raw(owed), INT(0)), dle(dec(floor, 27), divhu(col, owed)))


def epochs(r):
    out = []
    for e in r.of("price"):
        if e.epoch not in out:
            out.append(e.epoch)
    return out


HEALTH = ["withdraw", "swapCollateral", "swapDebt", "multiply", "repayDebtWithCollateral"]


@rule("C06", "Every operation by which an account holder reduces collateral or takes on debt through a strategy succeeds only if, on the "
      "positions it leaves behind, the liquidation-threshold-weighted collateral over the debt is at least one.")
def c06(W, R):
    for n in HEALTH:
        r = ep(W, R, n)
        whos = []
        for e, who, what in touched(r):
            if who not in whos and what == "positions":
                whos.append(who)
        R.ob("accounts", n, len(whos) == 1, f"{len(whos)} accounts touched", r.where())
        for w in whos:
            d, b = posfinal(r, w, "Deposit"), posfinal(r, w, "Borrow")
            some = band(r.pc, bnot(vempty(b)))
            d, b = reduce(d, some), reduce(b, some)
            R.ob("can-have-debt", n, feasible(some), "never succeeds with debt", r.where())
            ok = any(must(some, healthy(d, b, SAFE, e)) for e in reversed(epochs(r)))
            R.ob("healthy-after", f"{n}/{show(w, 1)}", ok, "success does not imply health factor >= 1 on the resulting positions", r.where())


# ------------------------------------------------------------------ C07: borrowing power
TYPE = "common_structs::AccountPositionType"


def value_typed(p, allow, epoch):
    """EGLD value of a position valued by its own side"""
    t = proj(p, "asset_id")
    one = lambda s: raw(value(p, t, s, price(t, allow, epoch)))
    return select(T.is_variant(proj(p, "position_type"), TYPE, "Deposit"), one("Deposit"), one("Borrow"))


def payamount(p, allow, epoch):
    """amount of a payment in its token's decimals, and its price"""
    pr = price(proj(p, "token_identifier"), allow, epoch)
    return dec(proj(p, "amount"), proj(pr, "asset_decimals")), pr


def leafs(pc, t):
    """(condition, leaf) of a gated value where pc holds"""
    t = reduce(t, pc)
    if t.op != "gate":
        return [(pc, t)]
    out = []
    for l in T.leaves(t.args[0]):
        c = band(pc, T.map_leaves(t.args[0], lambda x: TRUE if x is l else FALSE))
        if feasible(c):
            out.append((c, l))
    return out


def mirrors(r, v, lid, coll, stored, ret):
    """the working copy v of the debt list, loop variable of loop lid, starts as the stored positions
    and, whenever another element follows, replaces or appends exactly the position just returned"""
    for (l, k, p), (init, back, bpc) in r.I.loopinfo.items():
        if l is not lid or mk("lv", l, k, p) is not v:
            continue
        if init is not app("mapped", keys(stored), Interp.generalise(None, M.unsome(M.mget(stored, mk("elem", keys(stored), _LID))), _LID)):
            return "does not start as the stored positions"
        for c, x in leafs(bpc, back):
            if x is v:
                if feasible(band(c, T.lt(INT(1), M.vlen(coll)))):
                    return "is not brought up to date when several tokens are borrowed"
            elif x.op == "app" and x.args[:2] == ("push", v) and same(c, x.args[2], ret):
                continue
            elif x.op == "app" and x.args[:2] == ("vset", v) and same(c, x.args[3], ret):
                continue
            else:
                return f"is replaced by {show(x, 3)}"
        return None
    return "is not tracked"


def elemof(e):
    """(loop, collection) of the innermost loop element an event's arguments come from"""
    for x in e.args:
        for t in T.subterms(x):
            if t.op == "elem":
                return t.args[1], t.args[0]
    return None, None


@rule("C07", "Each pool borrow made by `borrow` is dominated by: LTV-weighted collateral >= value of the account's debts, including "
      "those taken earlier in the same call, plus value of the new amount.")
def c07(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "borrow"):
        k += 1
        who = proj(e.args[2], "account_nonce")
        d0, b0 = load("positions", who, side("Deposit")), load("positions", who, side("Borrow"))
        new = mulhu(e.args[1], e.args[3])
        lid, coll = elemof(e)
        cands, ep0 = [], epochs(r)[0]
        for (l, kk, p), (init, back, bpc) in r.I.loopinfo.items():
            v = mk("lv", l, kk, p)
            if l is lid and kk.args[0] == "L":
                cands.append((v, dec(sumover(v, lambda q: value_typed(q, SAFE, ep0)), 27)))
            elif l is lid and kk.args[0] == "S" and kk.args[1] is b0.args[0]:
                cands.append((None, worth(v, "Borrow", SAFE, ep0)))
        hit = None
        for v, owed in cands:
            if must(e.pc, dle(dadd(owed, new), worth(d0, "Deposit", SAFE, ep0, LTV))):
                hit = v
                break
        else:
            R.ob("within-ltv", n, False, "the borrow is not dominated by the LTV comparison on the account's positions", e.at())
            continue
        R.ob("within-ltv", n, True, "", e.at())
        bad = mirrors(r, hit, lid, coll, b0, e.ret) if hit is not None else None
        R.ob("debts-current", n, bad is None, f"the debts compared: working copy {bad}", e.at())
    R.floor("borrow calls", k, 1)


# ------------------------------------------------------------------ C08: which prices may be used
def topool(e):
    """the callee is the pool on record for some token"""
    return all(isinstance(t, T.Term) and t.op == "sload" and keybase(t.args[0]) == "pools_map" for t in (T.leaves(e.to.args[0]) if e.to.op == "gate" else [e.to]))


NODEBT_OK = ["withdraw", "swapCollateral"]
ANYPRICE = ["supply", "repay", "flashLoan", "updateIndexes"]


@rule("C08", "Every price read by an operation that borrows, liquidates, re-rates or can leave debt behind is requested with unsafe "
      "prices refused; unsafe prices are accepted only where no account can lose cover (supply, repay, index refresh, plain flash loan) and by withdrawals of accounts without debt; after a swap "
      "router ran, health is judged on freshly read prices.")
def c08(W, R):
    k = 0
    for n in USER:
        r = ep(W, R, n)
        ev = r.of("price")
        whos = []
        for e, who, what in touched(r):
            if who not in whos:
                whos.append(who)
        for e in ev:
            k += 1
            if n in ANYPRICE:
                continue
            c = bnot(T.truth(e.allow))
            if n in NODEBT_OK:
                c = bor(c, *[vempty(load("positions", w, side("Borrow"))) for w in whos])
            R.imp("safe-price", n, e.pc, c, "a price outside the safe bands is refused", e.at())
        swaps = [e for e in r.of("call") if not topool(e)]
        if n in HEALTH and swaps:
            last = max(e.seq for e in swaps)
            before = {e.epoch for e in ev if e.seq < last}
            fresh = [q for q in epochs(r) if q not in before]
            for w in [x for i, x in enumerate(whos) if x not in whos[:i]]:
                d, b = posfinal(r, w, "Deposit"), posfinal(r, w, "Borrow")
                some = band(r.pc, bnot(vempty(b)))
                d, b = reduce(d, some), reduce(b, some)
                k += 1
                R.ob("fresh-price", n, any(must(some, healthy(d, b, SAFE, q)) for q in fresh),
                     "health after the swap is judged on prices read before it", r.where())
    R.floor("price reads", k, 40)


# ------------------------------------------------------------------ account attributes and effective configuration
def attrs(r, n, who, stored):
    """attributes of account who: those it was minted with, those on the token sent, or those on record"""
    mints = r.of("mint")

    def f(l):
        for m in mints:
            if l is m.nonce:
                return m.args[5]
        if not stored and n in SENT and l is proj(SENT[n], "token_nonce"):
            return attrs_of(SENT[n])
        return load("account_attributes", l)
    return T.gmap(who, f)


def anyattrs(r, n, who, f):
    """some spelling of the account's attributes makes f true"""
    return f(attrs(r, n, who, False)) or f(attrs(r, n, who, True))


def config(tok):
    return load("asset_config", tok)


def emode(a):
    return proj(a, "e_mode_category_id")


def inemode(a):
    return bnot(T.eqnum(emode(a), INT(0)))


def emap(a):
    return M.mget(load("e_mode_category"), emode(a))


def easset(a, tok):
    return M.mget(load("e_mode_assets", emode(a)), tok)


def effective(a, tok, f):
    """field f of the asset's configuration as it applies to an account with attributes a"""
    base = proj(config(tok), f)
    if f in ("is_collateralizable", "is_borrowable"):
        own = proj(M.unsome(easset(a, tok)), f)
    elif f in (LTV, LT, "liquidation_bonus_bps"):
        own = proj(M.unsome(emap(a)), f)
    else:
        return base
    return select(inemode(a), own, base)


def postoken(e):
    i = C.POSARG[cname(e)]
    return proj(e.args[i], "asset_id")


def posaccount(e):
    i = C.POSARG[cname(e)]
    return proj(e.args[i], "account_nonce")


OPENS = ("supply", "borrow", "createStrategy")


@rule("C09", "Each pool supply by an account operation is dominated by: the asset has a market, the amount is positive, and the asset is "
      "collateral in the account's effective (e-mode) configuration.")
def c09(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "supply"):
        k += 1
        tok, who = postoken(e), posaccount(e)
        R.imp("has-market", n, e.pc, bnot(T.truth(app("isempty", load("pools_map", tok)))), "the asset has a pool", e.at())
        R.imp("positive", n, e.pc, T.lt(INT(0), proj(e.pay, "amount")), "amount > 0", e.at())
        R.ob("collateral", n, anyattrs(r, n, who, lambda a: must(e.pc, T.truth(effective(a, tok, "is_collateralizable")))),
             "not dominated by the asset being usable as collateral by this account", e.at())
    R.floor("supplies", k, 3)


def isolated(a):
    return T.truth(proj(a, "is_isolated_position"))


@rule("C10", "Each pool supply is dominated by: an isolated account takes only its own isolated asset, a regular account takes no isolated "
      "asset, and an isolated asset is never combined with an e-mode.")
def c10(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "supply"):
        k += 1
        tok, who = postoken(e), posaccount(e)
        ciso = T.truth(proj(config(tok), "is_isolated_asset"))

        def no_mix(a):
            own = band(M.is_some(proj(a, "isolated_token")), T.eqv(M.unsome(proj(a, "isolated_token")), tok))
            return must(e.pc, band(bor(bnot(isolated(a)), own), bor(bnot(ciso), isolated(a)), bnot(band(ciso, inemode(a)))))
        R.ob("no-mixing", n, anyattrs(r, n, who, no_mix), "isolated and regular collateral (or an e-mode) can be combined", e.at())
    for n, r, eff in mutating(W, R):
        for e in r.of("mint"):
            k += 1
            a = e.args[5]
            R.imp("minted", n, e.pc, bor(bnot(isolated(a)), band(bnot(inemode(a)), M.is_some(proj(a, "isolated_token")))),
                  "a new isolated account has no e-mode and names its asset", e.at())
            R.imp("minted", n, e.pc, bor(isolated(a), bnot(M.is_some(proj(a, "isolated_token")))), "a regular account names no isolated asset", e.at())
    R.floor("supplies and mints", k, 5)


@rule("C11", "Each pool borrow is dominated by: the asset has a market and is borrowable in the account's effective configuration; an "
      "isolated account only borrows assets enabled for that; an isolated asset is not borrowed in an e-mode.")
def c11(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "borrow", "createStrategy"):
        k += 1
        tok, who = postoken(e), posaccount(e)
        cf = config(tok)
        R.imp("has-market", n, e.pc, bnot(T.truth(app("isempty", load("pools_map", tok)))), "the asset has a pool", e.at())
        R.ob("borrowable", n, anyattrs(r, n, who, lambda a: must(e.pc, T.truth(effective(a, tok, "is_borrowable")))),
             "not dominated by the asset being borrowable by this account", e.at())
        R.ob("isolation", n, anyattrs(r, n, who, lambda a: must(e.pc, bor(bnot(isolated(a)), T.truth(proj(cf, "isolation_borrow_enabled"))))),
             "an isolated account can borrow an asset not enabled for isolation", e.at())
        R.ob("isolation", n + "/e-mode", anyattrs(r, n, who, lambda a: must(e.pc, bnot(band(inemode(a), T.truth(proj(cf, "is_isolated_asset")))))),
             "an isolated asset can be borrowed in an e-mode", e.at())
    R.floor("borrows", k, 3)


@rule("C12", "Each pool supply and borrow (and each refresh of risk parameters) is dominated by an e-mode check: the account's category exists, is not deprecated and lists the "
      "asset.")
def c12(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, *OPENS):
        k += 1
        tok, who = postoken(e), posaccount(e)

        def ok(a):
            return must(band(e.pc, inemode(a)), band(M.is_some(emap(a)), bnot(T.truth(proj(M.unsome(emap(a)), "is_deprecated"))),
                                                     M.is_some(easset(a, tok)), M.shas(load("asset_e_modes", tok), emode(a))))
        R.ob("e-mode-valid", n, anyattrs(r, n, who, ok), "an account in a missing, deprecated or unrelated e-mode category is served", e.at())
    r = ep(W, R, "updateAccountThreshold")
    for s in r.stores("positions"):
        if s.d.get("op") == "insert":
            k += 1
            a, tok = load("account_attributes", s.key.args[1]), s.value.args[2]
            ok = must(band(s.pc, inemode(a)), band(M.is_some(emap(a)), bnot(T.truth(proj(M.unsome(emap(a)), "is_deprecated"))),
                                                   M.is_some(easset(a, tok)), M.shas(load("asset_e_modes", tok), emode(a))))
            R.ob("refresh", "updateAccountThreshold", ok, "parameters of a missing, deprecated or unrelated e-mode category are applied", s.at())
    R.floor("supplies, borrows and refreshes", k, 7)


def debtlists(r, e):
    """spellings of the account's debt list at a pool borrow: the stored positions, or the running copies of a bulk borrow"""
    b0 = load("positions", posaccount(e), side("Borrow"))
    out = [app("mapped", keys(b0), Interp.generalise(None, M.unsome(M.mget(b0, mk("elem", keys(b0), _LID))), _LID))]
    lid, coll = elemof(e)
    for (l, k, p), (init, back, bpc) in r.I.loopinfo.items():
        if l is lid and k.args[0] == "L":
            v = mk("lv", l, k, p)
            if not mirrors(r, v, lid, coll, b0, e.ret):
                out.append(v)
    return out


@rule("C13", "Each pool borrow of a siloed asset is dominated by the account having no debt or debt in that asset only, and each borrow by "
      "an account whose single debt is siloed is dominated by it being the same asset.")
def c13(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "borrow", "createStrategy"):
        k += 1
        tok = postoken(e)

        def ok(v):
            one = T.eqnum(M.vlen(v), INT(1))
            first = proj(app("vget", v, INT(0)), "asset_id")
            sil = lambda t: T.truth(proj(config(t), "is_siloed_borrowing"))
            return must(band(e.pc, sil(tok)), bor(T.eqnum(M.vlen(v), INT(0)), band(one, T.eqv(first, tok)))) and \
                must(band(e.pc, one, sil(first)), T.eqv(first, tok))
        R.ob("siloed-alone", n, any(ok(v) for v in debtlists(r, e)), "a siloed asset can be borrowed next to another one", e.at())
    R.floor("borrows", k, 3)


def prices(r, tok):
    out = []
    for e in r.of("price"):
        p = app("price", e.token, e.allow, e.epoch)
        if same(e.pc, e.token, tok) and p not in out:
            out.append(p)
    return out


def under_cap(r, e, amount, base, field, side_, inclusive=True):
    tok = postoken(e)
    cap = proj(config(tok), field)
    pool = load("pools_map", tok)
    total = mulhu(load(base, addr=pool), mindex(tok, side_))
    for p in prices(r, tok):
        d = proj(p, "asset_decimals")
        t = T.add(raw(resc(total, d)), amount)
        if must(band(e.pc, M.is_some(cap)), bnot(T.lt(M.unsome(cap), t))):
            return True
    return False


@rule("C14", "Each pool supply is dominated by: no supply cap is configured, or everything supplied (at the current index) plus this amount "
      "is within it.")
def c14(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "supply"):
        k += 1
        R.ob("supply-cap", n, under_cap(r, e, proj(e.pay, "amount"), "supplied", "supply_cap_wad", "Deposit"),
             "the supply cap does not bound this supply", e.at())
    R.floor("supplies", k, 3)


@rule("C15", "Each pool borrow is dominated by: no borrow cap is configured, or everything borrowed (at the current index) plus this amount "
      "is within it.")
def c15(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "borrow", "createStrategy"):
        k += 1
        R.ob("borrow-cap", n, under_cap(r, e, raw(e.args[1]), "borrowed", "borrow_cap_wad", "Borrow"),
             "the borrow cap does not bound this borrow", e.at())
    R.floor("borrows", k, 3)


# ------------------------------------------------------------------ isolated debt
TRACK = "isolated_asset_debt_usd"
WADU = 10 ** 18


def egldusd(r):
    for e in r.of("feed"):
        if same(e.pc, e.ticker, EGLDNAME):
            yield dec(proj(app("feed", e.ticker, e.aggregator, e.stale, e.allow), "price"), 18)


EGLDNAME = app("token_name", mk("const", "EGLD"))


def usd_of(egld, rate):
    return resc(mulhu(egld, rate), 18)


def tracked(r, key):
    """spellings of the tracker's value before the step at hand: stored, or as left by the previous loop round"""
    yield raw(mk("sload", key, SELF))
    for (l, k, p), (init, back, bpc) in r.I.loopinfo.items():
        if k.args[0] == "S" and k.args[1] is key:
            v = mk("lv", l, k, p)
            yield v if p == ("raw",) else raw(v)


@rule("C16", "Each pool borrow by an isolated account is dominated by tracked debt + USD value of the amount <= the collateral's debt "
      "ceiling, and exactly that sum is stored as the new tracked debt.")
def c16(W, R):
    k = 0
    for n, r, e in pool_calls(W, R, "borrow", "createStrategy"):
        k += 1
        who, tok = posaccount(e), postoken(e)
        rates = list(egldusd(r))
        amount, pr = e.args[1], e.args[3]

        def ok(a):
            it = M.unsome(proj(a, "isolated_token"))
            key = skey(TRACK, it)
            ceil = raw(proj(config(it), "isolation_debt_ceiling_usd_wad"))
            iso = band(e.pc, isolated(a))
            for rate in rates:
                usd = raw(usd_of(resc(mulhu(amount, pr), 18), rate))
                for prior in tracked(r, key):
                    t = T.add(prior, usd)
                    if not must(iso, bnot(T.lt(ceil, t))):
                        continue
                    st = [s for s in r.stores(TRACK) if s.key is key]
                    got = bor(*[s.pc for s in st if same(band(s.pc, iso), raw(s.value), t)])
                    if must(band(iso, T.lt(INT(0), usd)), got):
                        return True
            return False
        R.ob("ceiling", n, anyattrs(r, n, who, ok), "an isolated account's borrow is not held to the debt ceiling and added to the tracked debt",
             e.at())
    R.floor("borrows", k, 3)


@rule("C17", "The isolated-debt tracker changes only by such additions and by subtractions that never go below zero and that clear a "
      "remainder under one dollar; each repayment or bad-debt write-off of an isolated account subtracts the USD value of the debt it "
      "removes (at most the outstanding debt).")
def c17(W, R):
    k = 0
    for n, r, eff in mutating(W, R):
        if n == "createLiquidityPool":
            continue
        calls = [e for e in r.of("call") if cname(e) in ("repay", "seizePosition") and
                 not implies(e.pc, T.is_variant(proj(e.args[C.POSARG[cname(e)]], "position_type"), TYPE, "Deposit"))]
        adds = bool([e for e in r.of("call") if cname(e) in ("borrow", "createStrategy")])
        st = r.stores(TRACK)
        if not calls:
            if not adds:
                R.ob("tracker-untouched", n, not st, "writes the isolated-debt tracker", r.where())
            continue
        for e in calls:
            k += 1
            who = posaccount(e)
            p = e.args[C.POSARG[cname(e)]]
            tok = postoken(e)

            def ok(a):
                it = M.unsome(proj(a, "isolated_token"))
                key = skey(TRACK, it)
                iso = isolated(a)
                pr = e.args[-1]
                owed = mulhu(mulhu(proj(p, "scaled_amount_ray"), mindex(tok, "Borrow")), pr)
                for rate in egldusd(r):
                    outs = [m for g in given(r, e, pr) for m in (minof(resc(owed, 18), g), minof(g, resc(owed, 18)))] if cname(e) == "repay" else [owed]
                    for egld in outs:
                        usd = raw(usd_of(egld, rate))
                        for prior in tracked(r, key):
                            cut = T.sub(prior, select(T.lt(usd, prior), usd, prior))
                            wants = [select(T.lt(x, INT(WADU)), INT(0), x) for x in (cut, select(T.lt(usd, prior), T.sub(prior, usd), INT(0)))]
                            got = bor(*[s.pc for s in st if s.key is key and any(same(band(iso, T.lt(INT(0), usd)), raw(s.value), w) for w in wants)])
                            if got is not FALSE and must(band(e.pc, r.rounds(e), r.pc, iso, T.lt(INT(0), usd)), got):
                                return True
                return False
            R.ob("subtracted", f"{n}/{cname(e)}", anyattrs(r, n, who, ok), "debt removed from an isolated account is not taken off the tracked debt",
                 e.at())
    R.floor("debt removals", k, 5)


def minof(a, b):
    return dsel(dlt(a, b), a, b)


def given(r, e, pr):
    """EGLD value of what a repayment pays in"""
    amount = proj(e.pay, "amount")
    if pr.op == "proj":
        yield resc(mulhu(dec(amount, proj(pr.args[0], "asset_decimals")), pr), 18)
    x = amount
    while x.op == "proj":
        x = x.args[0]
        if x.op == "elem":          # a liquidator's payment carries its own valuation (rule C25)
            yield proj(x, "1")
