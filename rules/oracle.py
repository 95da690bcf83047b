"""Price oracle and the per-transaction cache."""
from lib import *
from . import rule
import terms as T
import cuts as C
import models as M
from .controller import *
from .liquidation import calls, dmin
from .pool import projected

OM = "controller::oracle::OracleModule::"
EGLD = mk("const", "EGLD")
WEGLD = mk("const", "common_constants::WEGLD_TICKER")
WINDOW = INT(900)


def case(x, adt, name):
    return T.is_variant(x, adt, name)


def kind(o, n):
    return case(proj(o, "oracle_type"), "common_structs::OracleType", n)


def source(o, n):
    return case(proj(o, "exchange_source"), "common_structs::ExchangeSource", n)


def method(o, n):
    return case(proj(o, "pricing_method"), "common_structs::PricingMethod", n)


def named(tok, cache):
    """the ticker a token is priced under: EGLD's own for EGLD and its wrapped form"""
    e, t = proj(cache, "egld_ticker"), app("ticker", tok)
    is_ = bor(T.eqv(EGLD, tok), T.eqv(app("token_name", tok), e), T.eqv(t, WEGLD))
    return select(is_, e, t), bor(is_, T.eqv(t, e))


def near(a, s, o, which):
    t = proj(o, "tolerance")
    ratio = resc(divhu(s, a), 4)
    return band(dle(ratio, proj(t, which + "_upper_ratio_bps")), dle(proj(t, which + "_lower_ratio_bps"), ratio))


def half(a, b):
    s, t, p = M.align(a, b)
    return dec(T.gmap(T.add(s, t), lambda x: M.decdiv(x, INT(2), INT(0))), p)


def wad(x):
    return dec(x, 18)


@rule("C30", "The function that prices a token, run as a whole and split by kind of token and pricing method: in each case the price returned is "
      "the documented formula, and outside the deviation bands it returns only if unsafe prices are allowed.")
def c30(W, R):
    r = W.fn("controller", OM + "token_price")
    R.use(r)
    tok, cache = mk("param", 1), mk("param", 2)
    n, at = "token_price", r.where()
    o = load("token_oracle", tok)
    allow, epoch, rate = T.truth(proj(cache, "allow_unsafe_price")), proj(cache, "prices_cache"), proj(cache, "egld_usd_price_wad")
    cached = T.truth(app("mmhas", epoch, tok))
    egld = named(tok, cache)[1]
    fresh = band(r.pc, bnot(egld), bnot(cached))
    got, decs = raw(proj(r.val, "price_wad")), proj(r.val, "asset_decimals")
    R.eq("egld", n, band(r.pc, egld), got, INT(WADU), at)
    R.eq("egld", n + "/decimals", band(r.pc, egld), decs, INT(18), at)
    old = app("mmget", epoch, tok)
    R.eq("cached", n, band(r.pc, bnot(egld), cached), got, raw(proj(old, "price_wad")), at)
    R.eq("cached", n + "/decimals", band(r.pc, bnot(egld), cached), decs, proj(old, "asset_decimals"), at)
    R.imp("configured", n, fresh, bnot(T.truth(app("isempty", o))), "an oracle is configured for the token", at)
    R.eq("decimals", n, fresh, decs, proj(o, "asset_decimals"), at)
    R.imp("kind", n, fresh, bor(*[kind(o, k) for k in ("Normal", "Derived", "Lp")]), "the oracle is of a known kind", at)

    formulas(R, r, n, at, tok, cache, fresh, got)
    # what was worked out is kept for the token it was worked out for
    kept(R, r, 2, "prices_cache", fresh, tok, r.val)


def formulas(R, r, n, at, tok, cache, fresh, got, shown=None):
    """the documented price of tok wherever `fresh`; shown: the safe and feed prices and tolerance verdicts reported along with it"""
    o = load("token_oracle", tok)
    allow, epoch, rate = T.truth(proj(cache, "allow_unsafe_price")), proj(cache, "prices_cache"), proj(cache, "egld_usd_price_wad")

    def tells(pc, safe, feed, one, two):
        if shown:
            R.eq("safe-shown", n, pc, shown[0], safe, at)
            R.eq("feed-shown", n, pc, shown[1], feed, at)
            R.imp("tolerance-shown", n + "/first", pc, T.biff(T.truth(shown[2]), one), "the first tolerance is as the prices are", at)
            R.imp("tolerance-shown", n + "/last", pc, T.biff(T.truth(shown[3]), two), "the last tolerance is as the prices are", at)

    def usd(token, stale):
        f = app("feed", named(token, cache)[0], proj(cache, "price_aggregator_sc"), stale, proj(cache, "allow_unsafe_price"))
        return resc(divhu(wad(proj(f, "price")), rate), 18)

    def worth_(amount, token):
        p = app("price", token, proj(cache, "allow_unsafe_price"), epoch)
        return resc(mulhu(dec(amount, proj(p, "asset_decimals")), proj(p, "price_wad")), 18)

    # exchange price: one whole token over the last 15 minutes, on an active pair
    safes = []
    for e in calls(r, "getSafePriceByTimestampOffset"):
        e_at = e.at()
        R.imp("exchange-active", n, e.pc, bor(pair_active(r, e, o), allow), "the pair is active, or unsafe prices are allowed", e_at)
        R.ob("exchange-window", n, any(a is WINDOW for a in e.args), "the average is not taken over 15 minutes", e_at)
        one = e.args[-1]
        R.eq("exchange-amount", n, e.pc, proj(one, "amount"), app("pow", INT(10), proj(o, "asset_decimals")), e_at)
        R.eq("exchange-token", n, e.pc, proj(one, "token_identifier"), tok, e_at)
        R.ob("exchange-pair", n, any(same(e.pc, x, proj(o, "oracle_contract_address")) for x in (e.to,) + tuple(e.args[:1])), "another pair is asked", e_at)
        out, amount = proj(e.ret, "token_identifier"), proj(e.ret, "amount")
        safes.append((e.pc, select(named(out, cache)[1], amount, raw(worth_(amount, out)))))
    R.floor("exchange price calls", len(safes), 2)
    normal = band(fresh, kind(o, "Normal"))
    R.imp("method", n, normal, bor(*[method(o, k) for k in ("Aggregator", "Safe", "Mix")]), "a pricing method is configured", at)
    A = usd(tok, proj(o, "max_price_stale_seconds"))
    R.eq("aggregator", n, band(normal, method(o, "Aggregator")), got, raw(A), at)
    tells(band(normal, method(o, "Aggregator")), got, raw(A), TRUE, TRUE)
    for pc, s in safes:
        S = wad(s)
        R.eq("safe", n, band(normal, method(o, "Safe"), pc), got, s, at)
        tells(band(normal, method(o, "Safe"), pc), s, got, TRUE, TRUE)
        one, two = near(A, S, o, "first"), near(A, S, o, "last")
        mix = band(normal, method(o, "Mix"), pc)
        R.imp("deviation", n, mix, bor(one, two, allow), "far apart prices are refused unless unsafe prices are allowed", at)
        R.eq("mix", n, mix, got, select(one, s, select(two, raw(half(A, S)), s)), at)
        tells(mix, s, raw(A), one, two)
    R.imp("exchange-known", n, band(normal, bnot(method(o, "Aggregator"))), bor(*[pc for pc, _ in safes]), "the exchange is asked", at)
    derived = band(fresh, kind(o, "Derived"))
    d = [(e, rated(r, e, o)) for e in calls(r, "getTokenPrice", "getExchangeRate")]
    R.imp("derived-known", n, derived, bor(*[source(o, k) for k in ("XEGLD", "LEGLD", "LXOXNO")]), "a known source", at)
    for k, call in (("XEGLD", "getExchangeRate"), ("LEGLD", "getTokenPrice"), ("LXOXNO", "getExchangeRate")):
        c = band(derived, source(o, k))
        es = [e for e, own in d if own and cname(e) == call and feasible(band(c, e.pc))]
        R.ob("derived", f"{n}/{k}", len(es) == 1, f"{len(es)} rate calls", at)
        for e in es[:1]:
            ratio = dec(e.ret, proj(o, "asset_decimals"))
            want = raw(ratio)
            if k == "LXOXNO":
                base = app("price", proj(o, "base_token_id"), proj(cache, "allow_unsafe_price"), epoch)
                want = raw(resc(mulhu(ratio, proj(base, "price_wad")), 18))
            R.eq("derived", f"{n}/{k}/price", c, got, want, at)
        for e in es[:1]:
            if k != "LXOXNO":
                tells(c, got, got, TRUE, TRUE)
            elif shown:
                for which, x in zip("34", shown[2:]):
                    R.ob("tolerance-shown", f"{n}/{k}", underlying(c, x, proj(o, "base_token_id"), which), "not the verdict on the underlying token", at)
    lp(R, r, n, at, fresh, o, cache, got, usd, allow, epoch, tells, shown)


def underlying(c, x, base, which):
    """the boolean is what the same report says of the base token"""
    c = reduce_(x, c)
    return any(y.op == "app" and str(y.args[0]).startswith("rec:") and same(TRUE, y.args[2], base) and T.truth(c) is T.truth(proj(y, which))
               for y in T.subterms(c))


def reduce_(x, c):
    return T.reduce_hook(x, c)


def kept(R, r, i, f, fresh, key, val):
    """a by-reference cache map gains exactly the entry key -> val when fresh, and else stays as it was"""
    old = proj(mk("param", i), f)
    m = proj(r.mem.get(("P", r.fn.path, i), mk("param", i)), f)
    n = r.name.rsplit("::", 1)[-1]
    for l in T.leaves(m.args[0]) if m.op == "gate" else [m]:
        here = band(r.pc, T.eqv(m, l)) if m.op != "gate" else band(r.pc, guard(m, l))
        if l is old:
            R.ob("kept", n + "/same", True, "", r.where())
        elif l.op == "app" and l.args[0] == "mput" and l.args[1] is old:
            R.imp("kept", n + "/when", here, fresh, "an entry is kept only for what was just worked out", r.where())
            R.eq("kept", n + "/key", here, l.args[2], key, r.where())
            x, y = l.args[3], val
            R.eq("kept", n + "/value", here, x, y, r.where())
        else:
            R.ob("kept", n, False, "the cache is changed in another way", r.where())


def guard(m, leaf):
    """where the gated value m is the given leaf"""
    return T.map_leaves(m.args[0], lambda l: TRUE if l is leaf else FALSE)


def rated(r, e, o):
    """the rate is asked of the token's own oracle contract"""
    return same(e.pc, e.to, proj(o, "oracle_contract_address"))


def pair_active(r, e, o):
    """the pair's own state, as its contract has it on record, is Active"""
    out = []
    for s in r.of("sload"):
        if keybase(s.key) in ("pair_state", "state") and same(e.pc, s.addr, proj(o, "oracle_contract_address")):
            for adt in STATES:
                if adt in T.VARIANTS:
                    out.append(T.is_variant(mk("sload", s.key, s.addr), adt, "Active"))
    return bor(*out)


STATES = ("controller::proxy_onedex::State", "common_proxies::proxy_onedex::State", "common_proxies::proxy_xexchange_pair::State",
          "controller::proxy_xexchange_pair::State")


def mul18(a, b):
    return hu("mul_half_up", a, b, 18)


def div18(a, b):
    return hu("div_half_up", a, b, 18)


def root(x):
    return mul18(dec(T.gmap(raw(x), lambda l: app("sqrt", l)), 9), dec(10 ** 9, 9))


def pool_price(ra, rb, supply, pa, pb):
    k = mul18(ra, rb)
    x, y = root(mul18(k, div18(pb, pa))), root(mul18(k, div18(pa, pb)))
    return div18(dadd(mul18(x, pa), mul18(y, pb)), resc(supply, 18))


def lp(R, r, n, at, fresh, o, cache, got, usd, allow, epoch, tells, shown):
    c = band(fresh, kind(o, "Lp"))
    es = [e for e in calls(r, "getReservesAndTotalSupply")]
    R.ob("lp-reserves", n, es and all(same(e.pc, e.to, proj(o, "oracle_contract_address")) for e in es), "the reserves are not those of the pair", at)
    for e in es:
        R.imp("lp-reserves", n, c, e.pc, "the reserves are read", at)
    R.imp("lp-source", n, c, source(o, "XExchange"), "the pair is an xExchange pair", at)
    A, B = proj(o, "base_token_id"), proj(o, "quote_token_id")
    pa, pb = (app("price", t, proj(cache, "allow_unsafe_price"), epoch) for t in (A, B))
    rates = calls(r, "getTokenPrice", "getExchangeRate")

    def off(t, i):
        f = app("oracle_cfg", t)

        def rate(k, call):
            found = [e for e in rates if cname(e) == call and same(e.pc, e.to, proj(f, "oracle_contract_address")) and must(e.pc, source(f, k))]
            return dec(found[min(i, len(found) - 1)].ret, proj(f, "asset_decimals")) if found else dec(mk("const", f"no {k} rate"), 18)
        x = rate("LXOXNO", "getExchangeRate")
        lx = resc(mulhu(x, usd(proj(f, "base_token_id"), proj(f, "max_price_stale_seconds"))), 18)
        own = usd(t, proj(f, "max_price_stale_seconds"))
        alts = [(source(f, "XEGLD"), rate("XEGLD", "getExchangeRate")), (source(f, "LEGLD"), rate("LEGLD", "getTokenPrice")), (source(f, "LXOXNO"), lx)]
        return [(bnot(kind(f, "Derived")), own)] + [(band(kind(f, "Derived"), k), v) for k, v in alts]
    by = [[off(t, i) for t in (A, B)] for i in range(len(es))]

    def worked_out(e, p, q):
        ra, rb = dec(proj(e.ret, "0"), proj(pa, "asset_decimals")), dec(proj(e.ret, "1"), proj(pb, "asset_decimals"))
        return pool_price(ra, rb, dec(proj(e.ret, "2"), proj(o, "asset_decimals")), p, q)
    covered = FALSE
    for i1, (c1, _) in enumerate(by[0][0]):
        for i2, (c2, _) in enumerate(by[0][1]):
            cc = band(c, c1, c2)
            covered = bor(covered, cc)
            cases = []
            for e, (xs, ys) in zip(es, by):
                L, O = worked_out(e, proj(pa, "price_wad"), proj(pb, "price_wad")), worked_out(e, xs[i1][1], ys[i2][1])
                cases.append((L, O, near(L, O, o, "first"), near(L, O, o, "last")))
            value = lambda k: select(k[2], raw(k[0]), raw(half(*k[:2])))
            for k in [k for k in cases[1:] if not diff(cc, got, value(k))] or cases[:1]:
                R.imp("lp-deviation", n, cc, bor(k[2], k[3], allow), "far apart prices are refused unless unsafe prices are allowed", at)
                R.eq("lp", n, cc, got, value(k), at)
                break
            for L, O, one, two in ([k for k in cases[1:] if shown and not diff(cc, shown[0], raw(k[0]))] or cases[:1])[:1]:
                tells(cc, raw(L), raw(O), one, two)
    R.imp("lp-known", n, c, covered, "the pair's tokens have oracles of a known kind", at)


@rule("C31", "The function that reads the price aggregator returns only if an aggregator is set and running, a price for the ticker is on record and "
      "younger than the given age (unless unsafe prices are allowed), and returns exactly that price; the dollar rate of EGLD always is.")
def c31(W, R):
    r = W.fn("controller", OM + "aggregator_price_feed")
    R.use(r)
    n, at = "aggregator_price_feed", r.where()
    ticker, agg, age, ok = (mk("param", i) for i in range(1, 5))
    R.imp("aggregator-set", n, r.pc, bnot(T.eqv(agg, mk("const", "zero_address"))), "an aggregator is set", at)
    R.imp("aggregator-running", n, r.pc, bnot(T.truth(mk("sload", skey("pause_module:paused"), agg))), "the aggregator is not paused", at)
    rec = mk("sload", mk("skey", BYTES("rounds"), ticker, mk("const", "common_constants::USD_TICKER")), agg)
    ok = T.truth(ok)
    R.imp("price-known", n, r.pc, bor(ok, bnot(T.truth(app("isempty", rec)))), "a dollar price for the ticker is on record", at)
    R.imp("price-fresh", n, r.pc, bor(ok, T.lt(env("now"), T.add(proj(rec, "timestamp"), age), True)), "the price is not older than allowed", at)
    for f in ("price", "timestamp"):
        R.eq("price", f"{n}/{f}", r.pc, proj(r.val, f), proj(rec, f), at)
    k = 0
    for path in cacheowners(W, "new"):
        r = W.fn("controller", path)
        R.use(r)
        own = load("token_oracle", EGLD)
        es = r.of("feed")
        k += 1
        good = [e for e in es if same(r.pc, e.ticker, EGLDNAME) and same(r.pc, e.aggregator, load("price_aggregator_address"))
                and same(r.pc, e.stale, proj(own, "max_price_stale_seconds")) and must(r.pc, bnot(T.truth(e.allow)))]
        R.ob("dollar-rate", "Cache::new", len(good) == 1 and len(es) == 1, "the dollar rate of EGLD may be missing, stale or another's", r.where())
        for e in good[:1]:
            f = app("feed", e.ticker, e.aggregator, e.stale, e.allow)
            R.eq("dollar-rate", "Cache::new/value", r.pc, raw(proj(r.val, "egld_usd_price_wad")), proj(f, "price"), r.where())
        R.eq("aggregator", "Cache::new", r.pc, proj(r.val, "price_aggregator_sc"), load("price_aggregator_address"), r.where())
        R.eq("ticker", "Cache::new", r.pc, proj(r.val, "egld_ticker"), EGLDNAME, r.where())
        R.eq("clock", "Cache::new", r.pc, proj(r.val, "current_timestamp"), env("now_ms"), r.where())
        R.eq("lock", "Cache::new", r.pc, proj(r.val, "flash_loan_ongoing"), load("flash_loan_ongoing"), r.where())
        R.eq("view", "Cache::new", r.pc, proj(r.val, "safe_price_view"), load("safe_price_view"), r.where())
    R.floor("cache constructors", k, 1)


CACHES = {"asset_configs": "cached_asset_info", "asset_pools": "cached_pool_address", "asset_oracles": "cached_oracle", "market_indexes": "cached_market_index",
          "prices_cache": None, "egld_usd_price_wad": None, "price_aggregator_sc": None, "egld_ticker": None, "current_timestamp": None,
          "safe_price_view": None, "flash_loan_ongoing": None}
STORED = {"asset_configs": "asset_config", "asset_pools": "pools_map", "asset_oracles": "token_oracle"}


def cacheowners(W, *names):
    return [p for p in W.P.fns if p.startswith("controller::cache::Cache") and p.rsplit("::", 1)[-1] in names]


def touches(f):
    """fields of the cache a function writes or hands out for writing: [(field, line)]"""
    out = []
    for b in f.blocks:
        for s in (b or {}).get("s", []):
            if len(s) < 2 or not isinstance(s[0], list):
                continue
            places = [s[0]] if len(s[0]) > 1 else []
            v = s[1]
            if isinstance(v, list) and v and v[0] == "ref" and v[1] != "shared":
                places.append(v[2])
            for p in places:
                fields = [x["f"] for x in p[1:] if isinstance(x, dict) and "f" in x]
                ty = f.d["locals"][p[0]] if p and isinstance(p[0], int) else ""
                if fields and fields[0] in CACHES and "cache::Cache<" in ty:
                    out.append((fields[0], s[2] if len(s) > 2 else f.line))
        t = (b or {}).get("t")
        if t and t[0] == "call" and isinstance(t[3], list) and len(t[3]) > 1:
            fields = [x["f"] for x in t[3][1:] if isinstance(x, dict) and "f" in x]
            if fields and fields[0] in CACHES and "cache::Cache<" in f.d["locals"][t[3][0]]:
                out.append((fields[0], t[5] if len(t) > 5 else f.line))
    return out


@rule("C32", "Each cached lookup returns the stored value (or what an earlier lookup of the same key kept), keeps it under that very key, and no other "
      "function of the contract writes the per-transaction cache.")
def c32(W, R):
    k = 0
    for field_, name in CACHES.items():
        if field_ not in STORED:
            continue
        for path in cacheowners(W, name):
            k += 1
            r = W.fn("controller", path)
            R.use(r)
            cache, tok = mk("param", 0), mk("param", 1)
            key = select(named(tok, cache)[1], EGLD, tok) if field_ == "asset_oracles" else tok
            old = proj(cache, field_)
            has_ = T.truth(app("mmhas", old, key)) if key.op != "gate" else M.mmhas(old, key)
            want = load(STORED[field_], tok)
            for c, kk in ([(named(tok, cache)[1], EGLD), (bnot(named(tok, cache)[1]), tok)] if field_ == "asset_oracles" else [(TRUE, tok)]):
                c = band(r.pc, c)
                known = T.truth(app("mmhas", old, kk))
                R.eq("stored", name, band(c, bnot(known)), r.val, load(STORED[field_], kk), r.where())
                fresh, kept_ = load(STORED[field_], kk), app("mmget", old, kk)     # either will do
                again = T.rebuild(r.val, lambda x: kept_ if x is fresh else None)[0]
                R.eq("repeated", name, band(c, known), again, kept_, r.where())
            keptonly(R, r, field_, key, known_=M.mmhas(old, key))
    for path in cacheowners(W, "cached_market_index"):
        k += 1
        r = W.fn("controller", path)
        R.use(r)
        cache, tok = mk("param", 0), mk("param", 1)
        old = proj(cache, "market_indexes")
        known = T.truth(app("mmhas", old, tok))
        pool = load("pools_map", tok)
        want, sane = projected(pool, proj(cache, "current_timestamp"))
        for f in ("borrow_index_ray", "supply_index_ray"):
            R.eq("worked-out", f"cached_market_index/{f}", band(r.pc, bnot(known), sane), raw(proj(r.val, f)), raw(want[f[:-4]]), r.where())
            R.eq("repeated", f"cached_market_index/{f}", band(r.pc, known), raw(proj(r.val, f)), raw(proj(app("mmget", old, tok), f)), r.where())
        keptonly(R, r, "market_indexes", tok, known)
    R.floor("cached lookups", k, 4)
    # nobody else writes the cache
    owner = set(cacheowners(W, "new", "clean_prices_cache", *[v for v in CACHES.values() if v])) | {OM + "token_price"}
    callers = {}
    for f in W.P.fns.values():
        if f.crate == "controller":
            for b in f.blocks:
                t = (b or {}).get("t")
                if t and t[0] == "call" and isinstance(t[1], dict):
                    for q in {t[1].get("r"), t[1].get("p")} - {None}:
                        callers.setdefault(q, set()).add(f.path)

    def private(p, seen=()):
        """only reached through the owners"""
        return p in owner or p not in seen and bool(callers.get(p)) and all(private(q, seen + (p,)) for q in callers[p])
    n = 0
    for f in list(W.P.fns.values()):
        if f.crate != "controller":
            continue
        for fl, line in touches(f):
            n += 1
            R.ob("cache-writer", f"{f.path}/{fl}", private(f.path), f"writes the cache's {fl}", f"{f.file}:{line}")
    R.floor("cache writes", n, 4)


def keptonly(R, r, f, key, known_):
    old = proj(mk("param", 0), f)
    m = proj(r.mem.get(("P", r.fn.path, 0), mk("param", 0)), f)
    n = r.name.rsplit("::", 1)[-1]
    got = 0
    for l in T.leaves(m.args[0]) if m.op == "gate" else [m]:
        here = band(r.pc, guard(m, l)) if m.op == "gate" else r.pc
        if l is old:
            continue
        if l.op == "app" and l.args[0] == "mput" and l.args[1] is old:
            got += 1
            R.imp("kept", n + "/when", here, bnot(known_), "an entry is kept only when new", r.where())
            R.eq("kept", n + "/key", here, l.args[2], key, r.where())
            R.eq("kept", n + "/value", here, l.args[3], r.val, r.where())
        else:
            R.ob("kept", n, False, "the cache is changed in another way", r.where())
