"""Admission of strategies."""
from lib import *
from . import rule
import terms as T
import cuts as C
import models as M
from .controller import *
from .ledger import everyitem, inner, feeof, has, FIRSTPAY
from .liquidation import calls


MODE = "common_structs::PositionMode"


def differ(a, b):
    return bnot(T.eqv(a, b))


def flag(tok, f):
    return T.truth(proj(config(tok), f))


@rule("C29", "Every pool call of a strategy is dominated by its admission checks: different assets, the allowed account mode and payments, no siloed "
      "debt swapped, no isolated account or asset in a collateral swap; closing an account withdraws every deposit in full.")
def c29(W, R):
    k = 0
    for n, (x, y) in (("multiply", (1, 3)), ("swapDebt", (0, 2)), ("swapCollateral", (0, 2))):
        r = ep(W, R, n)
        es = calls(r, *C.POSARG)
        for e in es:
            k += 1
            at = f"{n}/{cname(e)}"
            R.imp("two-assets", at, e.pc, differ(arg(x), arg(y)), "the two assets differ", e.at())
            who = posaccount(e)
            if n == "swapDebt":
                for i in (x, y):
                    R.imp("not-siloed", at, e.pc, bnot(flag(arg(i), "is_siloed_borrowing")), "neither debt asset is siloed", e.at())
            if n == "swapCollateral":
                ok = anyattrs(r, n, who, lambda a: must(e.pc, bnot(isolated(a))))
                R.ob("not-isolated", at, ok, "reached for an isolated account", e.at())
                R.imp("not-isolated-asset", at, e.pc, bnot(flag(arg(y), "is_isolated_asset")), "the new collateral is not an isolated asset", e.at())
            if n == "multiply":
                lev = lambda a: bor(*[T.is_variant(proj(a, "mode"), MODE, m) for m in ("Multiply", "Long", "Short")])
                ok = anyattrs(r, n, who, lambda a: must(e.pc, lev(a)))
                R.ob("mode", at, ok, "reached for an account that was not opened for leverage", e.at())
    R.floor("strategy calls", k, 6)
    r = ep(W, R, "repayDebtWithCollateral")
    done = False
    for e in calls(r, "withdraw"):
        if not e.loops:
            continue
        who = posaccount(e)
        lid = e.loops[-1]
        coll, pc, brk, end, bpc = r.I.loops[lid]
        debt = posfinal(r, who, "Borrow")
        R.imp("close-asked", "repayDebtWithCollateral", e.pc, T.truth(arg(3)), "deposits are paid out only if asked for", e.at())
        R.imp("close-no-debt", "repayDebtWithCollateral", e.pc, vempty(debt), "deposits are paid out with no debt left", e.at())
        everyitem(R, "close-each", "repayDebtWithCollateral", r, e, "every deposit left is paid out", bnot(band(T.truth(arg(3)), vempty(debt))))
        R.eq("close-to", "repayDebtWithCollateral", e.pc, e.args[0], env("caller"), e.at())
        tok = postoken(e)
        want = [raw(resc(mulhu(proj(e.args[2], "scaled_amount_ray"), mindex(tok, "Deposit")), proj(price(tok, SAFE, q), "asset_decimals"))) for q in epochs(r)]
        R.ob("close-all", "repayDebtWithCollateral", any(same(e.pc, raw(e.args[1]), x) for x in want), "a deposit is not paid out in full", e.at())
        done = True
    R.ob("close", "repayDebtWithCollateral", done, "closing an account pays out nothing", r.where())
