"""Arithmetic primitives and data-shape facts the other rules lean on."""
from lib import *
from . import rule
import terms as T
from interp import divint
import cuts as C

MATH = "common_math::SharedMathModule::"
CRATES = ("controller", "liquidity_layer", "price_aggregator")


def prim(W, R, name, prec=None, scales=None):
    """the primitive run on symbolic operands (optionally at fixed precisions)"""
    args = {}
    if scales:
        for i, s in enumerate(scales, 1):
            args[i] = dec(raw(mk("param", i)), s)
    if prec is not None:
        args[3] = INT(prec)
    return R.use(W.fn("common_math", MATH + name, cuts={}, args=args or None))


def sc(t, s, p):
    """the framework's truncating change of precision"""
    return raw(M.rescale(dec(t, s), INT(p)))


@rule("M01", "Each fixed-point primitive (multiply, divide, change precision; unsigned and signed) computes exactly "
      "floor(exact + 1/2) (away from zero for negative values) of its operands brought to the target precision, for symbolic "
      "operands at every pair of precisions the protocol uses.")
def m01(W, R):
    x, y = raw(mk("param", 1)), raw(mk("param", 2))
    k = 0
    for p in (27, 18, 4):
        for s1, s2 in ((27, 27), (27, 18), (27, 4), (27, 0), (18, 18), (18, 4), (4, 4), (18, 27), (4, 27), (4, 18), (0, 27)):
            S = 10 ** p
            a, b = sc(x, s1, p), sc(y, s2, p)
            r = prim(W, R, "mul_half_up", p, (s1, s2))
            c = f"{s1}x{s2}->{p}"
            R.eq("multiply", c, r.pc, raw(r.val), divint(T.add(T.mul_g(a, b), INT(S // 2)), INT(S)), r.where())
            R.ob("multiply", c + "/scale", proj(r.val, "scale") is INT(p), "result has another precision", r.where())
            r = prim(W, R, "div_half_up", p, (s1, s2))
            R.eq("divide", c, r.pc, raw(r.val), divint(T.add(T.mul_g(a, INT(S)), divint(b, INT(2))), b), r.where())
            R.ob("divide", c + "/scale", proj(r.val, "scale") is INT(p), "result has another precision", r.where())
            k += 2
    for s in (27, 18, 4, 0):
        for p in (27, 18, 8, 6, 4, 0):
            r = R.use(W.fn("common_math", MATH + "rescale_half_up", cuts={}, args={1: dec(x, s), 2: INT(p)}))
            want = sc(x, s, p) if p >= s else divint(T.add(x, INT(10 ** (s - p) // 2)), INT(10 ** (s - p)))
            R.eq("rescale", f"{s}->{p}", r.pc, raw(r.val), want, r.where())
            R.eq("rescale", f"{s}->{p}/scale", r.pc, proj(r.val, "scale"), INT(p), r.where())
            k += 1
    for p in (27,):
        S = 10 ** p
        r = prim(W, R, "mul_half_up_signed", p, (p, p))
        m = T.mul_g(x, y)
        want = select(T.lt(m, INT(0), True), divint(T.sub(m, INT(S // 2)), INT(S)), divint(T.add(m, INT(S // 2)), INT(S)))
        R.eq("multiply", f"signed {p}", r.pc, raw(r.val), want, r.where())
        r = prim(W, R, "div_half_up_signed", p, (p, p))
        lt0 = lambda a, b: T.lt(a, b, True)
        n, h = T.mul_g(x, INT(S)), divint(y, INT(2))
        pos, neg = divint(T.add(n, h), y), divint(T.sub(n, h), y)
        for nm, c, w in (("++", band(lt0(INT(0), x), lt0(INT(0), y)), pos), ("--", band(lt0(x, INT(0)), lt0(y, INT(0))), pos),
                         ("+-", band(lt0(INT(0), x), lt0(y, INT(0))), neg), ("-+", band(lt0(x, INT(0)), lt0(INT(0), y)), neg)):
            R.ob("divide", f"signed {nm}/live", feasible(band(r.pc, c)), "case cannot succeed", r.where())
            R.eq("divide", f"signed {nm}", band(r.pc, c), raw(r.val), w, r.where())
        k += 5
    for f, c in (("min", T.lt(raw(mk("param", 1)), raw(mk("param", 2)))), ("max", T.lt(raw(mk("param", 2)), raw(mk("param", 1))))):
        r = R.use(W.fn("common_math", MATH + f, cuts={}, args={1: dec(x, 27), 2: dec(y, 27)}))
        R.eq("extremum", f, r.pc, raw(r.val), select(c, x, y), r.where())
    for f, v, s in (("ray", 10 ** 27, 27), ("wad", 10 ** 18, 18), ("bps", 10 ** 4, 4), ("double_ray", 2 * 10 ** 27, 27),
                    ("ray_zero", 0, 27), ("wad_zero", 0, 18), ("bps_zero", 0, 4)):
        r = R.use(W.fn("common_math", MATH + f, cuts={}))
        R.ob("unit", f, raw(r.val) is INT(v) and proj(r.val, "scale") is INT(s), f"is {show(r.val, 3)}", r.where())
    R.floor("primitive instances", k, 60)


@rule("M02", "Every fixed-point value stored under a balance, index or isolated-debt entry, or placed in a record field whose "
      "name states its precision, has exactly that precision on every path of every entry point.")
def m02(W, R):
    runs = []
    for c in CRATES:
        for n in W.all_eps(c):
            runs.append(R.use(W.ep(c, n)))
    k = 0
    for r in runs:
        for s in r.stores():
            want = C.KEYSCALE.get(keybase(s.key))
            if want is not None:
                k += 1
                R.eq("stored-precision", f"{r.crate}::{r.name}/{keybase(s.key)}", s.pc, proj(s.value, "scale"), INT(want), s.at())
        seen = set()
        for e in r.events:
            for v in vals(e):
                for t in T.subterms(v):
                    if t.op != "struct" or t.id in seen:
                        continue
                    seen.add(t.id)
                    if t.args[0].split("::")[-1].split("<")[0] in ("MarketIndexView",):
                        continue
                    for nm, x in zip(t.args[2], t.args[3:]):
                        w = next((q for s_, q in C.SUFFIX.items() if isinstance(nm, str) and nm.endswith(s_)), None)
                        if w is None or not isinstance(x, Term) or optionish(x):
                            continue
                        k += 1
                        R.eq("field-precision", f"{r.crate}::{r.name}/{t.args[0].split('::')[-1]}.{nm}", e.pc, proj(x, "scale"), INT(w), e.at())
    R.floor("precision sites", k, 150)


def optionish(x):
    if x.op == "gate":
        return any(optionish(l) for l in T.leaves(x.args[0]))
    return (x.op == "struct" and x.args[0].split("::")[-1].startswith("Option")) or x.op in ("int", "arg")


def vals(e):
    for f in ("value", "args", "pay", "topics", "ret"):
        v = getattr(e, f, None)
        if isinstance(v, Term):
            yield v
        elif isinstance(v, (list, tuple)):
            for q in v:
                if isinstance(q, Term):
                    yield q


@rule("P21", "For each pool operation taking a position, the returned position equals the given one in every field except the "
      "scaled amount.")
def p21(W, R):
    for n, i in C.POSARG.items():
        r = R.use(W.ep("liquidity_layer", n))
        res = r.result()
        if res is None:
            R.ob("echo", n, False, "the position is not returned", r.where())
            continue
        fs = fields(W, res)
        R.ob("echo", f"{n}/record", len(fs) >= 8, f"returned record has fields {fs}", r.where())
        for f in fs:
            if f != "scaled_amount_ray":
                R.eq("echo", f"{n}/{f}", r.pc, proj(res, f), proj(arg(i), f), r.where())
    R.floor("operations", len(C.POSARG), 6)


POSFIELDS = ["position_type", "asset_id", "account_nonce", "liquidation_threshold_bps", "liquidation_bonus_bps",
             "liquidation_fees_bps", "loan_to_value_bps", "scaled_amount_ray"]


def fields(W, t):
    while t.op in ("gate", "upd", "with"):
        t = T.leaves(t.args[0])[0] if t.op == "gate" else t.args[0]
    return list(t.args[2]) if t.op == "struct" else POSFIELDS + ["?"]
