"""Operators kept symbolic in the analysis of their callers.

Each is a pure function of its arguments (or a cached read) whose own body is judged by separate
rules; callers are judged on which operator they apply to which values."""
import terms as T
import models as M
from terms import mk, INT, BYTES, app, boolval, gate, gmap, proj, tup, TRUE, FALSE, UNIT, band, bnot
from interp import ABORT
from models import dec, raw, scale_of


def byscale(a, f):
    """f(a), case by case over the precisions a may have"""
    s = scale_of(a)
    if s.op != "gate":
        return None
    out = None
    for l in T.leaves(s.args[0]):
        c = T.map_leaves(s.args[0], lambda x: TRUE if x is l else FALSE)
        v = f(dec(T.reduce_hook(raw(a), c), l))
        out = v if out is None else T.select(c, v, out)
    return out


def hu(name, a, b, p):
    for x, g in ((a, lambda q: hu(name, q, b, p)), (b, lambda q: hu(name, a, q, p))):
        r = byscale(x, g)
        if r is not None:
            return dec(raw(r), p)
    def g(x, y):
        if name.startswith("mul") and (x is INT(0) or y is INT(0)):
            return INT(0)
        if name.startswith("mul"):
            if name == "mul_half_up" and all(k.op == "int" for k in (x, y, scale_of(a), scale_of(b), p)):
                m, sm, n, sn, q = [k.args[0] for k in (x, scale_of(a), y, scale_of(b), p)]
                if min(m, n) >= 0 and q >= max(sm, sn):
                    return INT((m * 10 ** (q - sm) * n * 10 ** (q - sn) + 10 ** q // 2) // 10 ** q)
            (x, sx), (y, sy) = sorted((T.fewer(x, scale_of(a)), T.fewer(y, scale_of(b))), key=lambda q: (q[0].id, q[1].id))
            return app(name, x, sx, y, sy, p)
        if name.startswith("div") and x is INT(0):
            return INT(0)
        return app(name, *T.fewer(x, scale_of(a)), *T.fewer(y, scale_of(b)), p)
    return dec(T.lift2(raw(a), raw(b), g), p)


def half_up(name):
    def f(c):
        a, b, p = c.v(1), c.v(2), c.v(3)
        c.event("math", op=name, a=a, b=b, prec=p)
        return hu(name, a, b, p)
    return f


def rescale_half_up(c):
    a, p = c.v(1), c.v(2)
    c.event("math", op="rescale_half_up", a=a, prec=p)
    return resc(a, p)


def resc(a, p):
    r = byscale(a, lambda q: resc(q, p))
    if r is not None:
        return dec(raw(r), p)
    s = scale_of(a)
    if s is p:
        return a

    def g(x):
        if x is INT(0):
            return x
        if x.op == "int" and s.op == "int" and p.op == "int" and p.args[0] >= s.args[0]:
            return INT(x.args[0] * 10 ** (p.args[0] - s.args[0]))
        return app("rescale_half_up", x, s, p)
    return dec(gmap(raw(a), g), p)


def pure(name, n0=1, scale=None):
    def f(c):
        a = c.vals()[n0:]
        r = app(name, *a)
        if scale is not None:
            return dec(proj(r, "raw"), INT(scale))
        return r
    return f


def storage_read(name):
    def f(c):
        impl = next((x for (t, n), l in c.I.P.impls.items() for x in l if n == name and x.crate == c.I.crate), None)
        tok = c.v(1)
        r = c.I.inline(impl, [UNIT, tok], c.fr, c.bb, c.pc, c.mem, c.line)
        m = r[0]
        v = M.load(c, m)
        return v
    return f


def cached_oracle(c):
    tok = c.v(1)
    c.event("oracle_cfg", token=tok)
    return app("oracle_cfg", tok)


def cached_market_index(c):
    tok = c.v(1)
    c.event("index", token=tok)
    return app("mindex", tok)


def clean_prices(c):
    cache = c.get(0)
    c.event("clean_prices")
    c.set(0, T.with_field(cache, "prices_cache", app("pcache", c.site())))
    return UNIT


def token_price(c):
    tok, cache = c.v(1), c.v(2)
    allow = proj(cache, "allow_unsafe_price")
    c.event("price", token=tok, allow=allow, epoch=proj(cache, "prices_cache"))
    r = app("price", tok, allow, proj(cache, "prices_cache"))
    return r


def price_feed(c):
    a = c.vals()
    c.event("feed", ticker=a[1], aggregator=a[2], stale=a[3], allow=a[4])
    return app("feed", *a[1:])


RATES = "common_rates::InterestRates::"
MATH = "common_math::SharedMathModule::"
CC = "controller::cache::Cache::<'a, C>::"

MATH_CUTS = {
    MATH + "mul_half_up": half_up("mul_half_up"),
    MATH + "div_half_up": half_up("div_half_up"),
    MATH + "mul_half_up_signed": half_up("mul_half_up_s"),
    MATH + "div_half_up_signed": half_up("div_half_up_s"),
    MATH + "rescale_half_up": rescale_half_up,
}
RATE_CUTS = {
    RATES + "calculate_borrow_rate": pure("borrow_rate", 1, 27),
    RATES + "calculate_compounded_interest": pure("compound", 1, 27),
    RATES + "calculate_deposit_rate": pure("deposit_rate", 1, 27),
}
CTRL_CUTS = {
    CC + "cached_asset_info": storage_read("asset_config"),
    CC + "cached_market_index": cached_market_index,
    CC + "cached_oracle": cached_oracle,
    CC + "cached_pool_address": storage_read("pools_map"),
    CC + "clean_prices_cache": clean_prices,
    "controller::oracle::OracleModule::token_price": token_price,
    "controller::oracle::OracleModule::aggregator_price_feed": price_feed,
}
CUTS = {**MATH_CUTS, **RATE_CUTS, **CTRL_CUTS}


# ------------------------------------------------------------------ stored-data invariants used as rewrite rules
# Every entry a position map holds names its own key: the entry stored for token t under
# (account n, side s) carries asset_id t, account_nonce n, position_type s.  Rule POSMAP checks
# that every write keeps this; readers may rely on it.
def _position_fields(t, f):
    if f not in ("position_type", "asset_id", "account_nonce"):
        return None
    key = None
    if t.op == "proj" and t.args[1] == "Some.0" and t.args[0].op == "app" and t.args[0].args[0] == "mget":
        m, k = t.args[0].args[1:3]
    elif t.op == "app" and t.args[0] == "mval":
        m, k = t.args[1:3]
    else:
        return None
    sk = map_key(m)
    if sk is None or len(sk.args) != 3:
        return None
    if sk.args[0] is not BYTES("positions"):
        return None
    return k if f == "asset_id" else sk.args[1] if f == "account_nonce" else sk.args[2]


def map_key(m):
    """storage key of the map value m"""
    while True:
        if m.op == "sload":
            return m.args[0]
        if m.op in ("lv", "fold"):
            k = m.args[1 if m.op == "lv" else 3]
            return k.args[1] if k.op == "key" and k.args[0] == "S" else None
        if m.op == "app" and m.args[0] in ("minsert", "mremove"):
            m = m.args[1]
            continue
        return None


T.PROJ_HOOKS.append(_position_fields)


# Fixed-point quantities carry their precision in their name (field suffix _ray/_bps/_wad) or in the
# storage entry that holds them.  Rule SCALES checks that every value written under such a name has
# that precision; readers may rely on it.
SUFFIX = {"_ray": 27, "_bps": 4, "_wad": 18}
KEYSCALE = {"supplied": 27, "borrowed": 27, "revenue": 27, "supply_index": 27, "borrow_index": 27,
            "isolated_asset_debt_usd": 18}


def named_scale(t):
    if t.op == "proj" and isinstance(t.args[1], str):
        n = t.args[1].rsplit(".", 1)[-1]
        for s, k in SUFFIX.items():
            if n.endswith(s):
                return k
    if t.op == "sload":
        k = t.args[0]
        if k.op == "skey" and k.args[0].op == "bytes":
            return KEYSCALE.get(k.args[0].args[0])
    return None


def _scales(t, f):
    if f != "scale":
        return None
    n = named_scale(t)
    return INT(n) if n is not None else None


T.PROJ_HOOKS.append(_scales)


# A pool operation hands back the position it was given with only the scaled amount changed.
# Rule POSECHO checks that on the pool's side for each of these entry points.
POSARG = {"supply": 0, "borrow": 2, "withdraw": 2, "repay": 1, "createStrategy": 0, "seizePosition": 0}


def _echo(t, f):
    if t.op != "callret" or f == "scaled_amount_ray" or not isinstance(f, str) or "." in f:
        return None
    n = t.args[0]
    n = n.args[0] if isinstance(n, T.Term) and n.op == "bytes" else None
    if n in POSARG and len(t.args) > 3 + POSARG[n]:
        return proj(t.args[3 + POSARG[n]], f)
    return None


T.PROJ_HOOKS.append(_echo)


# Amounts the controller hands to a pool are expressed at the asset's own precision (the pool's only
# caller is its owner); stated as an assumption of the pool rules.
def _arg_amount(t, f):
    if f != "scale":
        return None
    if t.op == "arg" and t.args[0] in (1, 2) or t.op == "proj" and t.args[1] == "Some.0" and t.args[0].op == "arg" and t.args[0].args[0] == 4:
        return proj(mk("sload", mk("skey", BYTES("params")), mk("const", "self_storage")), "asset_decimals")
    return None


T.PROJ_HOOKS.append(_arg_amount)


# Precision of a field of list elements: the one precision every element put into the list has.
def elements(c, out, open_):
    if c.op == "gate":
        return all(elements(l, out, open_) for l in T.leaves(c.args[0]))
    if c.op in ("lvb", "lv"):
        return (c.args[-2], c.args[-1]) in open_
    if c.op == "fold" or c.op == "app" and c.args[0] == "fold":
        a = c.args if c.op == "fold" else c.args[1:]
        return elements(a[1], out, open_) and elements(a[2], out, open_ | {(a[3], a[4])})
    if c.op != "app":
        return False
    n = c.args[0]
    if n == "vnew":
        return True
    if n == "push":
        out.append((c.args[2], open_))
        return elements(c.args[1], out, open_)
    if n == "vset":
        out.append((c.args[3], open_))
        return elements(c.args[1], out, open_)
    if n in ("vremove", "remove", "slice"):
        return elements(c.args[1], out, open_)
    return False


_ES = {}


def _elemscale(t, f):
    if f != "scale" or t.op != "proj":
        return None
    if t.id in _ES:
        return _ES[t.id]
    _ES[t.id] = None
    path, x = [], t
    while x.op == "proj":
        path.insert(0, x.args[1])
        x = x.args[0]
    if x.op != "elem":
        return None
    out = []
    if not elements(x.args[0], out, frozenset()):
        return None
    got = set()
    for y, open_ in out:
        for p in path:
            y = proj(y, p)
        for l in (T.leaves(y.args[0]) if y.op == "gate" else [y]):
            z = l
            while z.op == "proj":
                z = z.args[0]
            if z.op == "app" and z.args[0] == "vget" and z.args[1].op in ("lv", "lvb") and (z.args[1].args[-2], z.args[1].args[-1]) in open_:
                continue        # an element of the same list
            s = proj(l, "scale")
            for q in (T.leaves(s.args[0]) if s.op == "gate" else [s]):
                w = q
                while w.op == "proj":
                    w = w.args[0]
                if w.op == "app" and w.args[0] == "vget" and w.args[1].op in ("lv", "lvb") and (w.args[1].args[-2], w.args[1].args[-1]) in open_:
                    continue
                got.add(q)
    if len(got) == 1:
        s = got.pop()
        if s.op == "int":
            _ES[t.id] = s
    return _ES[t.id]


T.PROJ_HOOKS.append(_elemscale)
