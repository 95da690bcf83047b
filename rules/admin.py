"""Markets, revenue routing, configuration and e-mode administration."""
from lib import *
from . import rule
import terms as T
import cuts as C
import models as M
from .controller import *
from .ledger import everyitem, inner, completes, each, paired, at as posat, FIRSTPAY, pay_, received
from .liquidation import calls

TEMPLATE, ACCUM = load("liq_pool_template_address"), load("accumulator_address")


def empty(x):
    return T.truth(app("isempty", x))


def positive(x):
    return T.lt(INT(0), x)


def only(R, n, r, base):
    """the single store under a key, or None"""
    st = r.stores(base)
    R.ob("stored", f"{n}/{base}", len(st) == 1, f"{len(st)} stores of {base}", r.where())
    return st[0] if len(st) == 1 else None


def always(R, n, r, s, at=None):
    R.imp("always", f"{n}/{keybase(s.key)}", r.pc, s.pc, "stored on every success", s.at())


def field(R, what, n, pc, x, f, given, at):
    got = proj(x, f)
    if f.endswith("cap_wad"):
        R.imp(what, f"{n}/{f}/none", band(pc, bnot(positive(given))), bnot(M.is_some(got)), "zero means no cap", at)
        R.imp(what, f"{n}/{f}/some", band(pc, positive(given)), M.is_some(got), "the cap is kept", at)
        R.eq(what, f"{n}/{f}", band(pc, positive(given)), M.unsome(got), given, at)
    elif f.endswith(("_bps", "_wad")):
        R.eq(what, f"{n}/{f}", pc, raw(got), given, at)
        R.eq(what, f"{n}/{f}/precision", pc, proj(got, "scale"), INT(4 if f.endswith("_bps") else 18), at)
    else:
        R.eq(what, f"{n}/{f}", pc, got, given, at)


def record(R, n, r, s, given):
    """a stored record has exactly the given fields"""
    R.use(r)
    for f, x in given.items():
        field(R, "as-given", n, s.pc, s.value, f, x, s.at())


ASSET = ["loan_to_value_bps", "liquidation_threshold_bps", "liquidation_bonus_bps", "liquidation_fees_bps", "is_collateralizable",
         "is_borrowable", "is_isolated_asset", "isolation_debt_ceiling_usd_wad", "flashloan_fee_bps", "is_siloed_borrowing",
         "is_flashloanable", "isolation_borrow_enabled", "borrow_cap_wad", "supply_cap_wad"]
CREATE = dict(zip(ASSET, [9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 23]))
EDIT = dict(zip(ASSET, [1, 2, 3, 4, 10, 11, 5, 6, 9, 7, 8, 12, 13, 14]))
WRITERS = {
    "pools_map": ["createLiquidityPool"], "pools": ["createLiquidityPool"],
    "asset_config": ["createLiquidityPool", "editAssetConfig", "addAssetToEModeCategory", "removeAssetFromEModeCategory", "removeEModeCategory"],
    "token_oracle": ["setTokenOracle", "editTokenOracleTolerance"], "position_limits": ["init", "setPositionLimits"],
    "price_aggregator_address": ["init", "setAggregator"], "safe_price_view": ["init", "setSafePriceView"],
    "accumulator_address": ["init", "setAccumulator"], "swap_router_address": ["init", "setSwapRouter"],
    "liq_pool_template_address": ["init", "setLiquidityPoolTemplate"],
    "last_e_mode_category_id": ["addEModeCategory"], "e_mode_category": ["addEModeCategory", "editEModeCategory", "removeEModeCategory"],
    "e_mode_assets": ["addAssetToEModeCategory", "editAssetInEModeCategory", "removeAssetFromEModeCategory", "removeEModeCategory"],
    "asset_e_modes": ["addAssetToEModeCategory", "removeAssetFromEModeCategory", "removeEModeCategory"],
}


def writers(W, R, *bases):
    for n in W.all_eps(CT):
        r = R.use(W.ep(CT, n))
        for b in bases:
            if n not in WRITERS[b]:
                R.ob("elsewhere-untouched", f"{n}/{b}", not r.stores(b), f"writes {b}", r.where())


@rule("C33", "Market creation evaluated as a whole: dominated by its preconditions; the pool is deployed from the template with each argument in its "
      "place; the records stored are the new pool's address and each configured value; nothing else writes these records.")
def c33(W, R):
    n = "createLiquidityPool"
    r = ep(W, R, n)
    a, at = arg(0), r.where()
    R.ob("completes", n, feasible(r.pc), "no market can be created", at)
    R.imp("precondition", n + "/new", r.pc, empty(load("pools_map", a)), "the asset has no market yet", at)
    R.imp("precondition", n + "/token", r.pc, T.truth(app("is_valid", a)), "the asset is a well-formed token", at)
    R.imp("precondition", n + "/threshold", r.pc, T.lt(arg(9), arg(10)), "the liquidation threshold is above the loan-to-value", at)
    ds = [e for e in r.of("call") if cname(e) == "raw_deploy"]
    R.ob("deploy", n, len(ds) == 1, f"{len(ds)} deployments", at)
    for e in ds[:1]:
        R.imp("deploy", n + "/always", r.pc, e.pc, "the pool is deployed", e.at())
        R.ob("deploy", n + "/count", len(e.args) >= 11, "arguments are missing", e.at())
        for i, x in enumerate(list(e.args)[:9]):
            R.eq("deploy", f"{n}/argument {i}", e.pc, x, arg(i), e.at())
        R.eq("deploy", n + "/decimals", e.pc, e.args[9], proj(load("token_oracle", a), "asset_decimals"), e.at())
        R.eq("deploy", n + "/template", e.pc, e.args[10], app("source", TEMPLATE), e.at())
        R.imp("deploy", n + "/template set", e.pc, bnot(empty(TEMPLATE)), "a template is configured", e.at())
        new = mk("newaddr", e.ret)
        R.imp("recorded", n + "/address", r.pc, bnot(T.eqv(new, mk("const", "zero_address"))), "the new address is not zero", at)
        m, p = only(R, n, r, "pools_map"), only(R, n, r, "pools")
        if m and p:
            always(R, n, r, m), always(R, n, r, p)
            R.eq("recorded", n + "/asset", m.pc, m.key.args[1], a, m.at())
            R.eq("recorded", n + "/pool", m.pc, m.value, new, m.at())
            R.ob("recorded", n + "/pools", p.d.get("op") == "insert" and same(p.pc, p.mkey, new), "another address joins the pools", p.at())
    s = only(R, n, r, "isolated_asset_debt_usd")
    if s:
        always(R, n, r, s)
        R.eq("no-debt-yet", n, s.pc, raw(s.value), INT(0), s.at())
        R.eq("no-debt-yet", n + "/asset", s.pc, s.key.args[1], a, s.at())
    s = only(R, n, r, "asset_config")
    if s:
        always(R, n, r, s)
        R.eq("configured", n + "/asset", s.pc, s.key.args[1], a, s.at())
        record(R, n, r, s, {f: arg(i) for f, i in CREATE.items()} | {"e_mode_enabled": T.boolval(FALSE)})
    writers(W, R, "pools_map", "pools")
    for n in W.all_eps(CT):
        r = W.ep(CT, n)
        if n != "createLiquidityPool":
            R.ob("deploy-elsewhere", n, not [e for e in r.of("call") if cname(e) == "raw_deploy"], "deploys a contract", r.where())


@rule("C34", "Every claimRevenue/addRewards/parameter/upgrade call goes to the market's own pool with the market's own price; what a claim returns is "
      "forwarded whole to the stored accumulator; a reward is forwarded whole; both need the accumulator to be set.")
def c34(W, R):
    for n, src in (("claimRevenue", None), ("addRewards", env("payment"))):
        r = ep(W, R, n)
        at = r.where()
        R.imp("accumulator", n, r.pc, bnot(empty(ACCUM)), "an accumulator is configured", at)
        es = calls(r, n)
        R.ob("pool-call", n, len(es) == 1, f"{len(es)} pool calls", at)
        for e in es[:1]:
            tok = proj(src, "token_identifier") if src is not None else mk("elem", arg(0), e.loops[-1]) if e.loops else arg(0)
            R.eq("pool", n, e.pc, e.to, load("pools_map", tok), e.at())
            ps = [p for p in r.of("price") if same(e.pc, p.token, tok)]
            R.ob("price", n, any(same(e.pc, raw(e.args[0]), raw(proj(app("price", tok, p.allow, p.epoch), "price_wad"))) for p in ps),
                 "not the market's own price", e.at())
            if n == "addRewards":
                R.eq("forwarded", n, e.pc, e.pay, src, e.at())
                R.imp("forwarded", n + "/always", r.pc, e.pc, "the reward reaches the pool", e.at())
                continue
            R.ob("each-asset", n + "/list", bool(e.loops) and r.I.loops[e.loops[-1]][0] is arg(0), "not the given assets", e.at())
            everyitem(R, "each-asset", n, r, e, "each asset's revenue is claimed")
            R.ob("claimed-pays-nothing", n, e.pay is None or show(e.pay, 2) == "no_payment", "pays the pool", e.at())
            dep = calls(r, "deposit")
            R.ob("deposit", n, len(dep) == 1, f"{len(dep)} deposits", at)
            for d in dep[:1]:
                R.eq("deposit", n + "/whole", d.pc, d.pay, e.ret, d.at())
                R.eq("deposit", n + "/to", d.pc, d.to, ACCUM, d.at())
                R.imp("deposit", n + "/when", band(e.pc, positive(proj(e.ret, "amount"))), d.pc, "whatever is claimed is deposited", d.at())
                R.ob("deposit", n + "/order", d.seq > e.seq, "deposited before it is claimed", d.at())
        R.ob("nothing-else", n, not r.of("transfer", "mint", "burn", "sendop") and len(r.of("call")) == (2 if n == "claimRevenue" else 1) and not r.stores(),
             "has another effect", at)
    n = "upgradeLiquidityPoolParams"
    r = ep(W, R, n)
    es = calls(r, "updateParams")
    R.ob("parameters", n, len(es) == 1 and len(r.of("call")) == 1, "not one pool call", r.where())
    R.imp("exists", n, r.pc, bnot(empty(load("pools_map", arg(0)))), "the market exists", r.where())
    for e in es[:1]:
        R.imp("parameters", n + "/always", r.pc, e.pc, "the pool is told", e.at())
        R.eq("pool", n, e.pc, e.to, load("pools_map", arg(0)), e.at())
        R.ob("parameters", n + "/count", len(e.args) == 9, f"{len(e.args)} arguments", e.at())
        for i, x in enumerate(list(e.args)[:8]):
            R.eq("parameters", f"{n}/argument {i + 1}", e.pc, x, arg(i + 1), e.at())
        ps = [p for p in r.of("price") if same(e.pc, p.token, arg(0))]
        R.ob("price", n, any(same(e.pc, raw(e.args[8]), raw(proj(app("price", arg(0), p.allow, p.epoch), "price_wad"))) for p in ps),
             "not the market's own price", e.at())
    n = "upgradeLiquidityPool"
    r = ep(W, R, n)
    es = [e for e in r.of("call") if cname(e) == "raw_upgrade"]
    R.ob("upgrade", n, len(es) == 1 and len(r.of("call")) == 1, "not one upgrade", r.where())
    for e in es[:1]:
        R.eq("pool", n, e.pc, e.to, load("pools_map", arg(0)), e.at())
        R.imp("exists", n, e.pc, bnot(empty(load("pools_map", arg(0)))), "the market exists", e.at())
        R.ob("upgrade", n + "/template", same(e.pc, e.args[0], app("source", TEMPLATE)), "not the template's code", e.at())
        R.imp("upgrade", n + "/template set", e.pc, bnot(empty(TEMPLATE)), "a template is configured", e.at())


@rule("C35", "Each e-mode administration entry point evaluated as a whole: category table, per-category asset table, per-asset category set and the "
      "asset's e-mode flag change together, by exactly the given entry; removal of a category empties it and marks it deprecated.")
def c35(W, R):
    cats, CAT = load("e_mode_category"), "common_structs::EModeCategory"
    last = load("last_e_mode_category_id")
    n = "addEModeCategory"
    r = ep(W, R, n)
    s, l = only(R, n, r, "e_mode_category"), only(R, n, r, "last_e_mode_category_id")
    nid = T.add(last, INT(1))
    if s and l:
        always(R, n, r, s), always(R, n, r, l)
        R.eq("fresh-id", n, l.pc, l.value, nid, l.at())
        R.ob("fresh-id", n + "/key", s.d.get("op") == "insert" and same(s.pc, s.mkey, nid), "stored under another id", s.at())
        R.eq("as-given", n + "/category_id", s.pc, proj(s.mval, "category_id"), nid, s.at())
        for i, f in enumerate(("loan_to_value_bps", "liquidation_threshold_bps", "liquidation_bonus_bps")):
            field(R, "as-given", n, s.pc, s.mval, f, arg(i), s.at())
        R.eq("as-given", n + "/is_deprecated", s.pc, proj(s.mval, "is_deprecated"), T.boolval(FALSE), s.at())
    n = "editEModeCategory"
    r = ep(W, R, n)
    s = only(R, n, r, "e_mode_category")
    if s:
        cid = proj(arg(0), "category_id")
        always(R, n, r, s)
        R.imp("exists", n, r.pc, M.is_some(M.mget(cats, cid)), "the category exists", r.where())
        R.ob("entry", n, s.d.get("op") == "insert" and same(s.pc, s.mkey, cid), "another category changes", s.at())
        R.eq("as-given", n, s.pc, s.mval, arg(0), s.at())
    for n, cat in (("addAssetToEModeCategory", arg(1)), ("editAssetInEModeCategory", arg(1)), ("removeAssetFromEModeCategory", arg(1))):
        r = ep(W, R, n)
        ent = load("e_mode_assets", cat)
        s = only(R, n, r, "e_mode_assets")
        if s is None:
            continue
        a = arg(0)
        always(R, n, r, s)
        R.eq("entry", n + "/category", s.pc, s.key.args[1], cat, s.at())
        R.ob("entry", n + "/asset", same(s.pc, s.mkey, a), "another asset's entry changes", s.at())
        listed = M.is_some(M.mget(ent, a))
        if n.startswith("add"):
            R.imp("exists", n + "/category", r.pc, M.is_some(M.mget(cats, cat)), "the category exists", r.where())
            R.imp("exists", n + "/market", r.pc, bnot(empty(load("pools_map", a))), "the market exists", r.where())
            R.imp("new", n, r.pc, bnot(listed), "the asset is not in the category yet", r.where())
            R.eq("as-given", n + "/is_collateralizable", s.pc, proj(s.mval, "is_collateralizable"), arg(2), s.at())
            R.eq("as-given", n + "/is_borrowable", s.pc, proj(s.mval, "is_borrowable"), arg(3), s.at())
            R.ob("entry", n, s.d.get("op") == "insert", "not an insertion", s.at())
        else:
            R.imp("exists", n + "/entry", r.pc, listed, "the asset is in the category", r.where())
            if n.startswith("edit"):
                R.ob("entry", n, s.d.get("op") == "insert", "not an update", s.at())
                R.eq("as-given", n, s.pc, s.mval, arg(2), s.at())
            else:
                R.ob("entry", n, s.d.get("op") == "remove", "not a removal", s.at())
        if n.startswith("edit"):
            continue
        coupled(R, r, n, s, a, cat, "insert" if n.startswith("add") else "remove")
    n = "removeEModeCategory"
    r = ep(W, R, n)
    cat = arg(0)
    ent = load("e_mode_assets", cat)
    old = M.unsome(M.mget(cats, cat))
    R.imp("exists", n, r.pc, M.is_some(M.mget(cats, cat)), "the category exists", r.where())
    s = only(R, n, r, "e_mode_category")
    if s:
        always(R, n, r, s)
        R.ob("entry", n, s.d.get("op") == "insert" and same(s.pc, s.mkey, cat), "another category changes", s.at())
        for f in ("category_id", "loan_to_value_bps", "liquidation_threshold_bps", "liquidation_bonus_bps"):
            R.eq("kept", f"{n}/{f}", s.pc, proj(s.mval, f), proj(old, f), s.at())
        R.eq("deprecated", n, s.pc, proj(s.mval, "is_deprecated"), T.boolval(TRUE), s.at())
    s = only(R, n, r, "e_mode_assets")
    if s:
        R.ob("entry", n + "/assets", s.d.get("op") == "remove" and same(s.pc, s.key.args[1], cat), "another category's assets change", s.at())
        everyitem(R, "emptied", n, r, s, "every asset leaves the category")
        R.ob("emptied", n + "/list", bool(s.loops) and r.I.loops[s.loops[-1]][0] in (keys(ent), ent) and s.mkey is mk("elem", keys(ent), s.loops[-1]),
             "not the category's assets, one by one", s.at())
        coupled(R, r, n, s, s.mkey, cat, "remove")
    writers(W, R, "last_e_mode_category_id", "e_mode_category", "e_mode_assets", "asset_e_modes")


def coupled(R, r, n, s, a, cat, op):
    """the asset's category set and its e-mode flag follow the category's table"""
    m = only(R, n, r, "asset_e_modes")
    if m is None:
        return
    R.imp("coupled", n + "/set", s.pc, m.pc, "the asset's category set changes too", m.at())
    R.imp("coupled", n + "/back", m.pc, s.pc, "the set changes only with the table", m.at())
    R.eq("coupled", n + "/asset", m.pc, m.key.args[1], a, m.at())
    R.ob("coupled", n + "/category", m.d.get("op") == op and same(m.pc, m.mkey, cat), "another category joins or leaves", m.at())
    st = r.stores("asset_config")
    R.ob("flag", n + "/stored", len(st) >= 1, "the asset's e-mode flag is never updated", r.where())
    old = load("asset_config", a)
    done = FALSE
    for c in st:
        done = bor(done, c.pc)
        R.eq("flag", n + "/asset", c.pc, c.key.args[1], a, c.at())
        R.eq("flag", n + "/value", c.pc, proj(c.value, "e_mode_enabled"), T.boolval(TRUE if op == "insert" else FALSE), c.at())
        for f in ASSET:
            R.eq("flag", f"{n}/other fields/{f}", c.pc, proj(c.value, f), proj(prior(r, c, old), f), c.at())
    if op == "insert":
        R.imp("flag", n + "/on", m.pc, bor(done, T.truth(proj(old, "e_mode_enabled"))), "an asset with a category has its flag on", m.at())
    else:
        R.imp("flag", n + "/off", band(m.pc, bnot(done)), bnot(vempty(m.value)), "an asset without a category has its flag off", m.at())
        R.imp("flag", n + "/still on", band(m.pc, done), vempty(m.value), "the flag goes off only with the last category", m.at())


def prior(r, c, old):
    """the record as the storing round found it"""
    ls = [e for e in r.of("sload") if keybase(e.key) == "asset_config" and e.seq < c.seq]
    return ls[-1].ret if ls and isinstance(getattr(ls[-1], "ret", None), Term) else old


SOURCE, SETTERS = "common_structs::ExchangeSource", {
    "setAggregator": "price_aggregator_address", "setSwapRouter": "swap_router_address", "setAccumulator": "accumulator_address",
    "setSafePriceView": "safe_price_view", "setLiquidityPoolTemplate": "liq_pool_template_address"}


def tolerances(R, n, r, s, first, last):
    t = proj(s.value, "tolerance")
    for nm, x, lo, hi in (("first", first, 50, 5000), ("last", last, 150, 10000)):
        R.imp("tolerance", f"{n}/{nm}", r.pc, band(bnot(T.lt(x, INT(lo))), bnot(T.lt(INT(hi), x))), f"{lo} to {hi} basis points", r.where())
        up = dec(T.add(INT(10000), x), 4)
        R.eq("tolerance", f"{n}/{nm} upper", s.pc, raw(proj(t, nm + "_upper_ratio_bps")), raw(up), s.at())
        R.eq("tolerance", f"{n}/{nm} lower", s.pc, raw(proj(t, nm + "_lower_ratio_bps")), raw(divhu(dec(INT(10000), 4), up, 4)), s.at())
    R.imp("tolerance", n + "/order", r.pc, bnot(T.lt(last, first)), "the last tolerance is not below the first", r.where())


@rule("C36", "Each configuration entry point evaluated as a whole: dominated by its validity checks, it stores on every success exactly the given "
      "values under its own key (keeping the fields it is not given), and no other entry point writes that key.")
def c36(W, R):
    n = "editAssetConfig"
    r = ep(W, R, n)
    a, old = arg(0), load("asset_config", arg(0))
    R.ob("completes", n, feasible(r.pc), "can never succeed", r.where())
    R.imp("valid", n + "/market", r.pc, bnot(empty(load("pools_map", a))), "the market exists", r.where())
    R.imp("valid", n + "/config", r.pc, bnot(empty(old)), "the asset is configured", r.where())
    R.imp("valid", n + "/threshold", r.pc, bor(T.lt(arg(1), arg(2)), band(bnot(positive(arg(1))), bnot(positive(arg(2))))),
          "the liquidation threshold is above the loan-to-value, or both are zero", r.where())
    s = only(R, n, r, "asset_config")
    if s:
        always(R, n, r, s)
        R.eq("entry", n, s.pc, s.key.args[1], a, s.at())
        record(R, n, r, s, {f: arg(i) for f, i in EDIT.items()} | {"e_mode_enabled": proj(old, "e_mode_enabled")})
    for n, k in SETTERS.items():
        r = ep(W, R, n)
        s = only(R, n, r, k)
        R.imp("valid", n + "/zero", r.pc, bnot(T.eqv(arg(0), mk("const", "zero_address"))), "not the zero address", r.where())
        R.imp("valid", n + "/contract", r.pc, T.truth(app("is_smart_contract", arg(0))), "a contract's address", r.where())
        if s:
            always(R, n, r, s)
            R.eq("as-given", n, s.pc, s.value, arg(0), s.at())
    for n, given in (("setPositionLimits", (arg(0), arg(1))), ("init", None)):
        r = ep(W, R, n)
        s = only(R, n, r, "position_limits")
        if s:
            always(R, n, r, s)
            for f, x in zip(("max_borrow_positions", "max_supply_positions"), given or (INT(10), INT(10))):
                R.eq("as-given", f"{n}/{f}", s.pc, proj(s.value, f), x, s.at())
    for i, k in enumerate(("liq_pool_template_address", "price_aggregator_address", "safe_price_view", "accumulator_address", "swap_router_address")):
        s = only(R, "init", r, k)
        if s:
            always(R, "init", r, s)
            R.eq("as-given", "init/" + k, s.pc, s.value, arg(i), s.at())
    n = "editTokenOracleTolerance"
    r = ep(W, R, n)
    old = load("token_oracle", arg(0))
    R.imp("valid", n, r.pc, bnot(empty(old)), "the token has an oracle", r.where())
    s = only(R, n, r, "token_oracle")
    if s:
        always(R, n, r, s)
        R.eq("entry", n, s.pc, s.key.args[1], arg(0), s.at())
        tolerances(R, n, r, s, arg(1), arg(2))
        for f in ("base_token_id", "quote_token_id", "oracle_contract_address", "oracle_type", "exchange_source", "asset_decimals",
                  "pricing_method", "onedex_pair_id", "max_price_stale_seconds"):
            R.eq("kept", f"{n}/{f}", s.pc, proj(s.value, f), proj(old, f), s.at())
    n = "setTokenOracle"
    r = ep(W, R, n)
    R.imp("valid", n + "/new", r.pc, empty(load("token_oracle", arg(0))), "the token has no oracle yet", r.where())
    s = only(R, n, r, "token_oracle")
    if s:
        always(R, n, r, s)
        R.eq("entry", n, s.pc, s.key.args[1], arg(0), s.at())
        tolerances(R, n, r, s, arg(6), arg(7))
        for f, i in (("asset_decimals", 1), ("oracle_contract_address", 2), ("pricing_method", 3), ("oracle_type", 4), ("exchange_source", 5),
                     ("max_price_stale_seconds", 8)):
            R.eq("as-given", f"{n}/{f}", s.pc, proj(s.value, f), arg(i), s.at())
        is_ = lambda k: T.is_variant(arg(5), SOURCE, k)
        pid = proj(s.value, "onedex_pair_id")
        R.eq("as-given", n + "/pair", s.pc, pid, select(T.is_variant(arg(9), next((a for a in T.VARIANTS if a.endswith("::OptionalValue")), M.OPT), "Some"),
                                                                 M.unsome(arg(9)), INT(0)), s.at())
        R.imp("valid", n + "/pair", band(r.pc, is_("Onedex")), positive(pid), "a pair is named", r.where())
        R.imp("valid", n + "/source", r.pc, bor(*[is_(k) for k in ("LXOXNO", "Onedex", "XExchange", "XEGLD", "LEGLD")]), "the source has a base token", r.where())
        for k, f, c in (("LXOXNO", "base", "getMainToken"), ("LXOXNO", "quote", "getMainToken"), ("XExchange", "base", "getFirstTokenId"),
                        ("XExchange", "quote", "getSecondTokenId"), ("Onedex", "base", "getPairFirstTokenId"),
                        ("Onedex", "quote", "getPairSecondTokenId"), ("XEGLD", "base", None), ("XEGLD", "quote", None), ("LEGLD", "base", None), ("LEGLD", "quote", None)):
            here = band(s.pc, is_(k))
            R.ob("pair", f"{n}/{k}/live", feasible(here), "the source can never be configured", s.at())
            got = proj(s.value, f + "_token_id")
            if c is None:
                R.eq("pair", f"{n}/{k}/{f}", here, got, mk("const", "EGLD"), s.at())
                continue
            es = [e for e in calls(r, c) if feasible(band(here, e.pc))]
            R.ob("pair", f"{n}/{k}/{f} asked", len(es) == 1, f"{len(es)} calls of {c}", s.at())
            for e in es:
                R.eq("pair", f"{n}/{k}/{f}", here, got, e.ret, s.at())
                R.eq("pair", f"{n}/{k}/{f} contract", e.pc, e.to, arg(2), e.at())
                if k == "Onedex":
                    R.eq("pair", f"{n}/{k}/{f} id", e.pc, e.args[0], pid, e.at())
    writers(W, R, "asset_config", "token_oracle", "position_limits", *SETTERS.values())


def announcements(r, name):
    return [(e, topics(e)[1]) for e in r.of("log") if topics(e)[0] == name]


def told(R, W, bases):
    """each store under a base is announced: the event names its entry and carries the value kept"""
    k = 0
    for n in W.all_eps(CT):
        r = W.ep(CT, n)
        for base, name, what in bases:
            st, logs = r.stores(base), announcements(r, name)
            if not st and not logs or n == "createLiquidityPool":
                continue
            R.use(r)
            here = [0] * len(logs)
            for s in st:
                k += 1
                done = FALSE
                for i, (e, t) in enumerate(logs):
                    if e.loops == s.loops and what(r, s, t, band(s.pc, e.pc)):
                        done, here[i] = bor(done, e.pc), 1
                R.imp("announced", f"{n}/{base}", completes(r, s), done, "what is stored is announced", s.at())
            for i, (e, t) in enumerate(logs):
                R.ob("announced-truly", f"{n}/{name}", here[i], "announces something other than what is stored", e.at())
    return k


def told_config(r, s, t, pc):
    return len(t) == 2 and same(pc, t[0], s.key.args[1]) and all(same(pc, proj(t[1], f), proj(s.value, f)) for f in ASSET + ["e_mode_enabled"])


def told_oracle(r, s, t, pc):
    return len(t) == 2 and same(pc, t[0], s.key.args[1]) and same(pc, t[1], s.value)


def told_category(r, s, t, pc):
    return len(t) == 1 and all(same(pc, proj(t[0], f), proj(s.mval, f)) for f in
                               ("category_id", "loan_to_value_bps", "liquidation_threshold_bps", "liquidation_bonus_bps", "is_deprecated"))


def told_entry(r, s, t, pc):
    if len(t) != 3 or not same(pc, t[0], s.mkey) or not same(pc, t[2], s.key.args[1]):
        return False
    return s.d.get("op") == "remove" or all(same(pc, proj(t[1], f), proj(s.mval, f)) for f in ("is_collateralizable", "is_borrowable"))


def told_debt(r, s, t, pc):
    if len(t) != 2 or not same(pc, t[0], s.key.args[1]):
        return False
    later = [x for x in r.stores("isolated_asset_debt_usd") if x.seq > s.seq and x.key is s.key and x.loops == s.loops]
    v = s.value
    for x in later:
        v = select(x.pc, x.value, v)
    return same(pc, raw(t[1]), raw(v))


@rule("C37", "Every store of a configuration, e-mode or isolated-debt record is accompanied by an event naming its entry and carrying exactly the value "
      "kept; every pool call on a position by one carrying the position it returned, at the asset's current index and price; no event says otherwise.")
def c37(W, R):
    k = told(R, W, [("asset_config", "update_asset_config", told_config), ("token_oracle", "update_asset_oracle", told_oracle),
                    ("e_mode_category", "update_e_mode_category", told_category), ("e_mode_assets", "update_e_mode_asset", told_entry),
                    ("isolated_asset_debt_usd", "update_debt_ceiling", told_debt)])
    n = "createLiquidityPool"
    r = ep(W, R, n)
    new = announcements(r, "create_market_params")
    R.ob("announced", n, len(new) == 1 and len(new[0][1]) == 11, "the new market is not announced once", r.where())
    for e, t in new[:1]:
        R.imp("announced", n + "/always", r.pc, e.pc, "the new market is announced", e.at())
        for i in range(9):
            R.eq("announced-truly", f"{n}/{i}", e.pc, t[i], arg(i), e.at())
        for s in r.stores("pools_map"):
            R.eq("announced-truly", n + "/pool", e.pc, t[9], s.value, e.at())
        for s in r.stores("asset_config"):
            R.ob("announced-truly", n + "/config", all(same(e.pc, proj(t[10], f), proj(s.value, f)) for f in ASSET + ["e_mode_enabled"]),
                 "another configuration is announced", e.at())
    for n in W.all_eps(CT):
        r = W.ep(CT, n)
        logs = announcements(r, "update_position")
        es = [e for e in r.of("call") if cname(e) in C.POSARG]
        if not logs and not es:
            continue
        R.use(r)
        real = [0] * len(logs)
        for e in es:
            k += 1
            done = FALSE
            for i, (l, t) in enumerate(logs):
                pc = band(e.pc, l.pc)
                if l.loops == e.loops and len(t) == 6 and l.seq > e.seq and feasible(pc) and all(same(pc, proj(t[2], f), proj(e.ret, f)) for f in POSF):
                    done, real[i] = bor(done, l.pc), 1
                    R.eq("amount", f"{n}/{cname(e)}", pc, raw(t[1]), moved(e, M.unsome(t[3])), l.at())
            R.imp("announced", f"{n}/{cname(e)}", completes(r, e), done, "the position the pool returned is announced", e.at())
        for s in r.stores("positions"):
            if n == "updateAccountThreshold":
                k += 1
                ok = [i for i, (l, t) in enumerate(logs) if l.loops == s.loops and all(same(band(s.pc, l.pc), proj(t[2], f), proj(s.mval, f)) for f in POSF)]
                for i in ok:
                    real[i] = 1
                    R.eq("amount", f"{n}/position", logs[i][0].pc, raw(logs[i][1][1]), INT(0), logs[i][0].at())
                R.imp("announced", f"{n}/position", completes(r, s), bor(*[logs[i][0].pc for i in ok]), "the position stored is announced", s.at())
        for i, (l, t) in enumerate(logs):
            R.ob("announced-truly", f"{n}/position {i}", real[i], "announces a position other than the one returned or stored", l.at())
            if len(t) != 6:
                continue
            tok, ty = proj(t[2], "asset_id"), proj(t[2], "position_type")
            for sd in ("Deposit", "Borrow"):
                c = band(l.pc, T.eqv(ty, side(sd)))
                if feasible(c):
                    R.eq("index", f"{n}/{sd}", c, raw(t[0]), raw(mindex(tok, sd)), l.at())
            R.ob("price", f"{n}/position {i}", any(same(l.pc, M.unsome(t[3]), proj(q, "price_wad")) for q in prices(r, tok)) or paid_price(t[3], tok),
                 "not the price of the position's asset", l.at())
    opening(W, R)
    R.floor("announcements", k, 30)


def opening(W, R):
    """the payment that opens a leveraged position is announced with its worth"""
    n = "multiply"
    r = ep(W, R, n)
    logs = announcements(r, "initial_multiply_payment")
    to, frm, p = arg(1), arg(3), FIRSTPAY   # collateral, debt
    paid = proj(p, "token_identifier")
    none, isdebt = T.eqv(paid, ACCT), T.eqv(paid, frm)
    own = bor(T.eqv(paid, to), isdebt)
    R.imp("announced", n + "/payment", band(r.pc, bnot(none)), bor(*[e.pc for e, t in logs]), "the opening payment is announced", r.where())
    for e, t in logs:
        R.imp("announced-truly", n + "/payment", e.pc, bnot(none), "an opening payment was made", e.at())
        tok = t[0]
        R.eq("announced-truly", n + "/token", band(e.pc, bnot(isdebt)), tok, to, e.at())
        R.eq("announced-truly", n + "/token", band(e.pc, isdebt), tok, paid, e.at())
        pre = [x for x in r.of("call") if x.seq < e.seq and x.pay is not None and feasible(band(x.pc, e.pc)) and same(band(e.pc, x.pc), x.pay, pay_(paid, proj(p, "amount")))]
        got = [received(x, to) for x in pre]
        R.eq("announced-truly", n + "/amount", band(e.pc, own), raw(t[1]), proj(p, "amount"), e.at())
        R.ob("announced-truly", n + "/swapped", any(same(band(e.pc, bnot(own)), raw(t[1]), g) for g in got),
             "not the amount the opening swap returned", e.at())
        R.ob("announced-truly", n + "/usd", any(same(e.pc, raw(t[2]), raw(usd_of(resc(mulhu(t[1], proj(q, "price_wad")), 18), f)))
                                                for q in prices(r, tok) for f in egldusd(r)), "not the payment's value in USD", e.at())
        R.ob("announced-truly", n + "/account", any(same(e.pc, t[3], m.nonce) for m in r.of("mint")), "not the position opened", e.at())


def moved(e, p):
    """the amount a call on a position moves: no more than the position holds at the asset's current index"""
    n = cname(e)
    if n == "supply":
        return proj(e.pay, "amount")
    if n == "createStrategy":
        return raw(e.args[1])
    if n == "borrow":
        return raw(e.args[1])
    if n == "seizePosition":
        return INT(0)
    x, tok, sd = e.args[C.POSARG[n]], postoken(e), "Borrow" if n == "repay" else "Deposit"
    feed = p.args[0] if p.op == "proj" and p.args[1] == "price_wad" else app("feed", p)
    held = raw(resc(mulhu(proj(x, "scaled_amount_ray"), mindex(tok, sd)), proj(feed, "asset_decimals")))
    a = proj(e.pay, "amount") if n == "repay" else raw(e.args[1])
    return select(T.lt(a, held), a, held)


def paid_price(p, tok):
    p = M.unsome(p)
    x = inner(p)
    return x.op == "elem" and inner(tok) is x and each(x.args[0], lambda y: paired(posat(p, y), posat(tok, y), p, tok))


POSF = ["position_type", "asset_id", "account_nonce", "scaled_amount_ray", "liquidation_threshold_bps", "liquidation_bonus_bps",
        "liquidation_fees_bps", "loan_to_value_bps"]
