"""Liquidation and bad-debt clean-up."""
from lib import *
from . import rule
import terms as T
import cuts as C
import models as M
from .controller import *
from .ledger import  completes, everyitem, inner, feeof, has, FIRSTPAY

ONE = dec(RAY, 27)
MAX_BONUS, SLOPE = dec(1500, 4), dec(20000, 4)


def one_plus(x):
    return dadd(ONE, x)


def dmin(a, b):
    x, y, s = M.align(a, b)
    return dec(select(T.lt(x, y), x, y), s)


class Recipe:
    """what a liquidation of account `who` may repay and at which bonus, on the stored positions"""

    def __init__(self, who, epoch, allow=SAFE):
        self.allow = allow
        d, b = load("positions", who, side("Deposit")), load("positions", who, side("Borrow"))
        self.d, self.b, self.q = d, b, epoch
        self.col, self.cover = worth(d, "Deposit", allow, epoch), worth(d, "Deposit", allow, epoch, LT)
        self.debt = worth(b, "Borrow", allow, epoch)
        self.hf = divhu(self.cover, self.debt)
        self.least = self.average("liquidation_bonus_bps")
        self.part = self.average(LT)

    def worth1(self, tok):
        return value(M.unsome(M.mget(self.d, tok)), tok, "Deposit", price(tok, self.allow, self.q))

    def share(self, tok):
        return divhu(self.worth1(tok), self.col)

    def average(self, f):
        return dec(sumover(keys(self.d), lambda t: raw(mulhu(self.share(t), proj(M.unsome(M.mget(self.d, t)), f)))), 27)

    def liquidatable(self):
        return band(bnot(T.eqnum(raw(self.debt), INT(0))), dlt(self.hf, ONE))

    def bonus(self, target):
        gap = divhu(dsub(target, self.hf), target)
        grow = dmin(mulhu(SLOPE, gap), ONE)
        return dadd(self.least, mulhu(dsub(M.rescale(MAX_BONUS, INT(27)), self.least), grow))

    def details(self, bonus, target):
        """(debt to repay, health factor it leads to)"""
        bps = dec(10000, 4)
        one = dadd(bps, bonus)
        most = divhu(mulhu(self.col, bps), one)
        back = mulhu(self.part, one)
        ideal = hu("div_half_up_s", dsub(hu("mul_half_up_s", target, self.debt, 27), self.cover), dsub(target, back), 27)
        neg = T.lt(raw(ideal), INT(0), True)
        repay = dsel(T.eqnum(raw(target), raw(back)), most, dsel(neg, most, dmin(ideal, most)))
        repay = dmin(repay, self.debt)
        taken = dmin(mulhu(mulhu(self.part, repay), one), self.cover)
        left = dsel(dle(self.debt, repay), dec(0, 27), dsub(self.debt, repay))
        hf = dsel(T.eqnum(raw(left), INT(0)), dec(2 * RAY, 27), divhu(dsub(self.cover, taken), left))
        return repay, hf

    def estimate(self):
        """(largest repayable debt, bonus)"""
        t1, t2 = dec(RAY + RAY // 50, 27), dec(RAY + RAY // 100, 27)
        b1, b2 = self.bonus(t1), self.bonus(t2)
        r1, h1 = self.details(b1, t1)
        r2, _ = self.details(b2, t2)
        _, h0 = self.details(self.least, ONE)
        r0 = dmin(divhu(self.col, one_plus(self.least)), self.debt)
        safe = dle(ONE, h1)
        worse = band(dlt(h0, ONE), dlt(h0, self.hf))
        return (dsel(safe, r1, dsel(worse, r0, r2)), dsel(safe, b1, dsel(worse, self.least, b2)))


# ------------------------------------------------------------------ lists built up over loops
def infos(r, x):
    """loop entries a folded list can come from"""
    for (l, k, p), (init, bk, bpc) in r.I.loopinfo.items():
        if k is x.args[3] and p == x.args[4] and init is x.args[1]:
            yield (l, k, p)


def spine(r, t, out=None):
    """loop variables a list is built up in: [(lid, key, path)]"""
    out = [] if out is None else out
    for l in T.leaves(t.args[0]) if t.op == "gate" else [t]:
        if l.op == "app" and l.args[0] in ("push", "vset", "vremove"):
            spine(r, l.args[1], out)
        elif l.op == "lv":
            k = (l.args[0], l.args[1], l.args[2])
            if k not in out:
                out.append(k)
                spine(r, r.I.loopinfo[k][0], out)
        elif l.op == "fold":
            for k in infos(r, l):
                if k not in out:
                    out.append(k)
                    spine(r, l.args[1], out)
    return out


def total(t, f, base):
    """sum of f over a list given as edits of other lists; base(list) names the total of a list known only by name"""
    if t.op == "gate":
        return T.gmap(t, lambda l: total(l, f, base))
    if t.op == "app":
        n = t.args[0]
        if n == "vnew":
            return INT(0)
        if n == "push":
            return T.add(total(t.args[1], f, base), f(t.args[2]))
        if n == "vset":
            return T.add(T.sub(total(t.args[1], f, base), f(app("vget", t.args[1], t.args[2]))), f(t.args[3]))
        if n == "vremove":
            return T.sub(total(t.args[1], f, base), f(app("vget", t.args[1], t.args[2])))
    return base(t)


def wadscale(R, r, K):
    """values noted with kept payments have 27 decimals: every one written has, or repeats an earlier one's"""
    ks = [mk("lv", *v) for v in K]
    ok = True
    for v in K:
        for t in r.I.loopinfo[v][:2]:
            todo = list(T.leaves(t.args[0])) if t.op == "gate" else [t]
            while todo:
                x = todo.pop()
                if x.op == "gate":
                    todo += T.leaves(x.args[0])
                elif x.op == "app" and x.args[0] in ("push", "vset", "vremove"):
                    todo.append(x.args[1])
                    if x.args[0] != "vremove":
                        new = x.args[-1]
                        s = M.scale_of(proj(new, "1"))
                        ok = ok and (s is INT(27) or noted(s, ks))
    R.ob("value-scale", LIQ, ok, "the value noted with a kept payment does not have 27 decimals", r.where())
    return lambda t: T.rebuild(t, lambda x: INT(27) if noted(x, ks) else None)[0]


def noted(x, ks):
    """is x the scale of the value noted with an element of one of the lists"""
    if x.op != "proj" or x.args[1] != "scale" or x.args[0].op != "proj" or x.args[0].args[1] != "1":
        return False
    y = x.args[0].args[0]
    return y.op == "app" and y.args[0] == "vget" and y.args[1] in ks or y.op == "elem" and y.args[0] in ks


def calls(r, *names):
    return [e for e in r.of("call") if cname(e) in names]


LIQ = "liquidate"


@rule("C25", "Every pool call of a liquidation is made only if, on the recorded positions at safe prices and current indexes, the account has "
      "debt and its liquidation-threshold-weighted collateral is below it.")
def c25(W, R):
    r = ep(W, R, LIQ)
    k = 0
    for e in calls(r, *C.POSARG):
        k += 1
        who = posaccount(e)
        ok = any(must(e.pc, Recipe(who, q).liquidatable()) for q in epochs(r)[:1])
        R.ob("underwater", f"{LIQ}/{cname(e)}", ok, "is reached for an account that is not below its liquidation threshold", e.at())
    R.floor("liquidation pool calls", k, 2)


def payment_of(x, kept):
    return proj(x, "0") if kept else x


@rule("C26", "Every token paid into a liquidation is, token by token, either repaid to the pool of the debt it is for or sent back to the caller; "
      "what is counted for a payment is its value, at most the debt still unpaid, and what is kept is worth exactly what is counted.")
def c26(W, R):
    r = ep(W, R, LIQ)
    reps = calls(r, "repay")
    R.ob("one-repay", LIQ, len(reps) == 1, f"{len(reps)} repayment calls", r.where())
    if len(reps) != 1:
        return
    e = reps[0]
    item = inner(proj(e.pay, "amount"))
    if item.op != "elem":
        R.ob("repaid", LIQ, False, "repayments are not the list of kept payments", e.at())
        return
    kept, lid = item.args[:2]
    R.eq("repaid", "amount", e.pc, proj(e.pay, "amount"), proj(proj(item, "0"), "amount"), e.at())
    R.eq("repaid", "token", e.pc, proj(e.pay, "token_identifier"), proj(proj(item, "0"), "token_identifier"), e.at())
    everyitem(R, "repaid-each", LIQ, r, e, "each kept payment is repaid")
    outs = [t for t in r.of("transfer") if t.pay.op != "struct"]
    R.ob("refund", LIQ, len(outs) == 1, f"{len(outs)} lists of payments are sent out", r.where())
    if len(outs) != 1:
        return
    t = outs[0]
    sent = t.pay
    R.eq("refund-to", LIQ, t.pc, t.to, env("caller"), t.at())
    R.imp("refund-sent", LIQ, band(r.pc, bnot(T.eqnum(M.vlen(sent), INT(0)))), t.pc, "refunds are sent", t.at())
    K, F = spine(r, kept), spine(r, sent)
    flat = wadscale(R, r, K)
    any_ = mk("const", "any token")
    tokens = lambda kp: lambda x: select(T.eqv(proj(payment_of(x, kp), "token_identifier"), any_), proj(payment_of(x, kp), "amount"), INT(0))
    worth_ = lambda x: raw(M.rescale(proj(x, "1"), INT(27)))
    lids = []
    for l, k_, p in K + F:
        if l not in lids:
            lids.append(l)
    paid_in = 0
    stand = {}
    for l in lids:
        coll, pc, brk, end, bpc = r.I.loops[l]
        walks = coll is XFER
        paid_in += walks
        ks = [mk("lv", *v) for v in K if v[0] is l]
        fs = [mk("lv", *v) for v in F if v[0] is l]
        base = lambda x: mk("total", x)
        bk = lambda v: r.I.loopinfo[(v.args[0], v.args[1], v.args[2])][1]
        now, then = INT(0), INT(0)
        for v in ks:
            now, then = T.add(now, total(bk(v), tokens(True), base)), T.add(then, base(v))
        for v in fs:
            now, then = T.add(now, total(bk(v), tokens(False), base)), T.add(then, base(v))
        if walks:
            x = mk("elem", XFER, l)
            then = T.add(then, tokens(False)(x))
            R.ob("payments-gone-through", LIQ, not feasible(brk), "not all payments are gone through", r.where())
        R.eq("conserved", f"{LIQ}/" + ("payments" if walks else "reductions"), bpc, now, then, where(r, l))
        # values
        gain = flat(T.sub(sumt(ks, bk, worth_, base), sumt(ks, None, None, base)))
        if walks:
            tok = proj(x, "token_identifier")
            pr = price(tok, SAFE, epochs(r)[0])
            counted(R, r, l, ks, fs, bk, base, gain, bpc, x, tok, pr, flat)
        else:
            reductions(R, r, l, ks, fs, bk, base, gain, bpc, flat)
    R.ob("payments-gone-through", LIQ + "/once", paid_in == 1, f"{paid_in} loops take payments in", r.where())
    R.floor("payment loops", len(lids), 1)


def where(r, l):
    f = l.args[0]
    return show(f.args[1], 1) if f.op == "frame" and len(f.args) > 1 else r.where()


def sumt(vs, bk, f, base):
    out = INT(0)
    for v in vs:
        out = T.add(out, total(bk(v), f, base) if bk else base(v))
    return out


def scalars(r, l):
    return [(mk("lv", *v), i, b) for v, (i, b, _) in r.I.loopinfo.items() if v[0] is l and v[2] == ("raw",)]


def counted(R, r, l, ks, fs, bk, base, gain, bpc, x, tok, pr, flat):
    """a payment counts for its value, at most the debt not yet paid off by earlier payments; the rest goes back"""
    who = next(posaccount(e) for e in calls(r, "repay"))
    b = load("positions", who, side("Borrow"))
    owed = raw(value(M.unsome(M.mget(b, tok)), tok, "Borrow", pr))
    v = raw(mulhu(dec(proj(x, "amount"), proj(pr, "asset_decimals")), proj(pr, "price_wad")))
    for lst in ks:
        before = sumover(lst, lambda y: select(T.eqv(tok, proj(proj(y, "0"), "token_identifier")), T.sub(INT(0), raw(M.rescale(proj(y, "1"), INT(27)))), INT(0)))
        left = T.add(owed, before)
        some = T.lt(INT(0), left)
        want = select(some, select(T.lt(left, v), left, v), INT(0))
        R.eq("counted", LIQ, bpc, gain, flat(want), where(r, l))
        # what goes back: all of it when nothing is left to pay, else the worth of the surplus
        over = select(T.lt(left, v), T.sub(v, left), INT(0))
        surplus = raw(resc(divhu(dec(over, 27), proj(pr, "price_wad")), proj(pr, "asset_decimals")))
        gone = T.sub(sumt(fs, bk, lambda y: proj(y, "amount"), base), sumt(fs, None, None, base))
        R.eq("returned", LIQ, bpc, flat(gone), flat(select(some, surplus, proj(x, "amount"))), where(r, l))
    sums = [(sc, i, b2) for sc, i, b2 in scalars(r, l) if i is INT(0)]
    R.ob("counted-total", LIQ, any(same(bpc, flat(T.sub(b2, sc)), gain) for sc, i, b2 in sums), "the total counted is not the sum of what each payment counts for", where(r, l))


def reductions(R, r, l, ks, fs, bk, base, gain, bpc, flat):
    """cutting kept payments down to what the liquidation may take"""
    # the excess still to give back shrinks by exactly the value taken off the kept payments
    ex = [(sc, i, b2) for sc, i, b2 in scalars(r, l) if same(bpc, flat(T.sub(b2, sc)), gain)]
    R.ob("excess", LIQ, bool(ex), "what is counted for kept payments does not fall by the excess given back", where(r, l))
    coll, pc, brk, end, _ = r.I.loops[l]
    wd = calls(r, "withdraw")
    for sc, i, b2 in ex[:1]:
        caps = [dec(x, 27) for e in wd[:1] for x in [limit(r, e)] if x is not None]
        R.ob("excess-start", LIQ, any(same(pc, i, T.sub(p, raw(c))) for p, c in [(p, c) for c in caps for p in counted_totals(r)]),
             "the excess given back is not what was counted beyond the liquidation's limit", where(r, l))
        for p, cap in [(p, c) for c in caps for p in counted_totals(r)]:
            R.imp("excess-taken", LIQ, band(r.pc, T.lt(raw(cap), p)), pc, "payments are cut whenever they count for more than the limit", where(r, l))
        R.imp("excess-end", LIQ, end, bor(T.eqnum(sc, INT(0)), *[T.eqnum(M.vlen(v), INT(0)) for v in ks], *[T.eqnum(z, INT(0)) for z in counters(r, l)]),
              "all the excess is given back", where(r, l))
    for v in ks:
        t = bk(v)
        for x in (T.leaves(t.args[0]) if t.op == "gate" else [t]):
            if x.op == "app" and x.args[0] == "vset" and x.args[1] is v:
                old, new = app("vget", v, x.args[2]), x.args[3]
                c = bpc
                pr = proj(old, "2")
                lost = T.sub(raw(M.rescale(proj(old, "1"), INT(27))), raw(M.rescale(proj(new, "1"), INT(27))))
                units = raw(resc(divhu(dec(lost, 27), proj(pr, "price_wad")), proj(pr, "asset_decimals")))
                gone = T.sub(proj(proj(old, "0"), "amount"), proj(proj(new, "0"), "amount"))
                R.eq("returned", LIQ + "/reduction", c, flat(gone), flat(units), where(r, l))
                R.eq("feed-kept", LIQ + "/reduction", c, proj(new, "2"), proj(old, "2"), where(r, l))


def counted_totals(r):
    return [x for e in calls(r, "withdraw")[:1] for x in T.subterms(raw(e.args[1])) if x.op == "fold" and x.args[0] is XFER and x.args[4] == ("raw",)]


def limit(r, e):
    L = Recipe(posaccount(e), epochs(r)[0])
    return raw(L.estimate()[0])


def counters(r, l):
    """the positions a loop counts down from the length of a list"""
    return [mk("lv", *v) for v, (i, b, _) in r.I.loopinfo.items() if v[0] is l and v[2] == () and T.unsigned(i) and i.op == "app" and i.args[0] in ("len", "vlen")
            and T.sub(mk("lv", *v), b) is INT(1)]


@rule("C27", "A liquidation visits every deposit and withdraws from each, to the caller, the share of the amount repaid (at most the recipe's "
      "limit) plus the recipe's bonus, at most what is there, converted at the safe price; the protocol fee is the configured part of the bonus.")
def c27(W, R):
    r = ep(W, R, LIQ)
    ws = calls(r, "withdraw")
    R.ob("one-withdraw", LIQ, len(ws) == 1, f"{len(ws)} withdrawal calls", r.where())
    for e in ws[:1]:
        who, q = posaccount(e), epochs(r)[0]
        R.ob("account", LIQ, same(e.pc, who, arg(0)), "collateral is taken from another account than the one named", e.at())
        L = Recipe(who, q)
        everyitem(R, "every-deposit", LIQ, r, e, "each deposit is visited")
        coll = r.I.loops[e.loops[-1]][0] if e.loops else None
        tok = postoken(e)
        R.ob("deposits", LIQ, coll is keys(L.d) and tok is mk("elem", coll, e.loops[-1]), "the deposits gone through are not those on record", e.at())
        R.eq("to", LIQ, e.pc, e.args[0], env("caller"), e.at())
        R.ob("seizure-flag", LIQ, must(e.pc, T.truth(e.args[3])), "not marked as a liquidation", e.at())
        amt = raw(e.args[1])
        paid = counted_totals(r)
        R.ob("repaid", LIQ, len(paid) == 1, "the amount seized does not depend on one total of what was repaid", e.at())
        for P in paid[:1]:
            cap, bonus = L.estimate()
            pr = price(tok, SAFE, q)
            have = mulhu(proj(M.unsome(M.mget(L.d, tok)), "scaled_amount_ray"), mindex(tok, "Deposit"))
            want = mulhu(mulhu(L.share(tok), dmin(dec(P, 27), cap)), one_plus(bonus))
            units = dmin(divhu(want, proj(pr, "price_wad")), have)
            R.eq("amount", LIQ, e.pc, amt, raw(resc(units, proj(pr, "asset_decimals"))), e.at())
            rate = proj(M.unsome(M.mget(L.d, tok)), "liquidation_fees_bps")
            fee = mulhu(dsub(units, divhu(units, one_plus(bonus))), rate)
            R.ob("fee-set", LIQ, e.args[4].op == "struct" and e.args[4].args[1] == "Some",
                 "no protocol fee is named", e.at())
            R.eq("fee", LIQ, e.pc, raw(M.unsome(e.args[4])), raw(resc(fee, proj(pr, "asset_decimals"))), e.at())
            R.imp("paid", LIQ, e.pc, T.lt(INT(0), P), "something was repaid", e.at())
    R.floor("withdrawal calls", len(ws), 1)


CLEAN = "cleanBadDebt"


@rule("C28", "Only cleanBadDebt seizes positions, only from an account whose debt exceeds its collateral and whose collateral is at most $5; it "
      "seizes every position of both sides and leaves no record of the account.")
def c28(W, R):
    n = 0
    for name, r, e in pool_calls(W, R, "seizePosition"):
        R.ob("only-clean-up", f"{name}", name == CLEAN, "seizes positions", e.at())
        n += name == CLEAN
    R.floor("seizures", n, 2)
    r = ep(W, R, CLEAN)
    seen = set()
    es = calls(r, "seizePosition")
    rates = list(egldusd(r))
    for e in es:
        who = posaccount(e)
        R.ob("account", CLEAN, same(e.pc, who, arg(0)), "seizes from another account than the one named", e.at())
        ok = False
        for q in epochs(r):
            L = Recipe(who, q)
            for rate in rates:
                owed, col = usd_of(L.debt, rate), usd_of(L.col, rate)
                ok = ok or must(e.pc, band(dlt(col, owed), dle(col, dec(5 * WADU, 18))))
        R.ob("bad-debt", CLEAN, ok, "is reached for an account that is solvent or holds more than dust", e.at())
        everyitem(R, "every-position", CLEAN, r, e, "each position is seized")
        coll = r.I.loops[e.loops[-1]][0] if e.loops else None
        for s in ("Deposit", "Borrow"):
            m = load("positions", who, side(s))
            if coll is keys(m):
                seen.add(s)
                i = C.POSARG[cname(e)]
                tok = mk("elem", coll, e.loops[-1])
                p = M.unsome(M.mget(m, tok))
                for f in ("scaled_amount_ray", "asset_id", "position_type"):
                    R.eq("position", f"{CLEAN}/{s}/{f}", e.pc, raw(proj(e.args[i], f)) if "_ray" in f else proj(e.args[i], f),
                         raw(proj(p, f)) if "_ray" in f else proj(p, f), e.at())
    R.ob("both-sides", CLEAN, seen == {"Deposit", "Borrow"}, f"goes through {sorted(seen) or 'no'} positions only", r.where())
    gone = [("positions", skey("positions", arg(0), side(x))) for x in ("Deposit", "Borrow")] + [("account_attributes", skey("account_attributes", arg(0)))]
    for base, key in gone:
        R.ob("cleared", f"{CLEAN}/{base}", any(s.d.get("op") == "clear" and s.key is key and must(r.pc, s.pc) for s in r.stores(base)), "stays on record", r.where())
        last = max([s.d.get("op") == "clear" for s in r.stores(base) if s.key is key][-1:] or [False])
        R.ob("cleared-last", f"{CLEAN}/{base}", last, "is written again after being cleared", r.where())
    R.ob("cleared", f"{CLEAN}/accounts", any(s.d.get("op") == "remove" and s.mkey is arg(0) and must(r.pc, s.pc) for s in r.stores("accounts")),
         "the account stays listed", r.where())
