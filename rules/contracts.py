"""What the contracts exchange: calls made through the proxies, records read from another contract's storage."""
import re
from lib import *
from . import rule
import terms as T

OURS = {"LiquidityPoolProxyMethods": "liquidity_layer", "PriceAggregatorProxyMethods": "price_aggregator", "ControllerProxyMethods": "controller"}
MAPPER = "multiversx_sc::storage::mappers::"
HERE = "multiversx_sc::storage::mappers::source::CurrentStorage"


def plain(t):
    t = t.lstrip("&").strip()
    t = re.sub(r"^mut ", "", t)
    return t.replace("<Self as multiversx_sc::contract_base::contract_base_trait::ContractBase>::Api", "Api")


def split(t):
    """name and type arguments"""
    if "<" not in t or not t.endswith(">"):
        return t, []
    n, rest = t.split("<", 1)
    out, d, cur = [], 0, ""
    for ch in rest[:-1]:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += ch in "<(["
        d -= ch in ">)]"
        cur += ch
    return n, out + [cur]


def shape(P, t, seen=()):
    """a type by what is encoded: our own records and enumerations are replaced by their fields in order"""
    t = plain(t)
    n, args = split(t)
    a = P.adts.get(n)
    if a is None or not n.split("::")[0] in ("controller", "liquidity_layer", "price_aggregator", "common_structs", "common_proxies", "common_events"):
        if t.startswith("(") and t.endswith(")"):
            return ("tuple",) + tuple(shape(P, x, seen) for x in split("t<" + t[1:-1] + ">")[1])
        return (n,) + tuple(shape(P, x, seen) for x in args if x not in ("Api", "Self"))
    if n in seen:
        return ("again", n)
    return ("enum" if a["enum"] else "record",) + tuple(
        (v[0] if a["enum"] else "",) + tuple(shape(P, f[1], seen + (n,)) for f in v[1]) for v in a["variants"])


def calls_in(f):
    for i, b in enumerate(f.blocks):
        t = (b or {}).get("t")
        if t and t[0] == "call" and isinstance(t[1], dict):
            yield t


def implements(P, w):
    """the contract function an exported entry point runs"""
    for t in calls_in(w):
        f = P.fns.get(t[1].get("r")) or P.fns.get(t[1].get("p"))
        if f is not None and f.crate == w.crate and f.argc >= 1 and not f.path.endswith("callback_raw"):
            return f
    return None


@rule("X01", "Every proxy function of our own contracts that the contracts call names an exported entry point with the same number, order and types "
      "of arguments and the same result; every record read from our own contracts' storage is kept under that entry with the same layout.")
def x01(W, R):
    P = W.P
    used = {}
    for f in P.fns.values():
        if f.crate in ("controller", "liquidity_layer", "price_aggregator"):
            for t in calls_in(f):
                for q in {t[1].get("r"), t[1].get("p")} - {None}:
                    m = re.match(r"common_proxies::.*?(\w+ProxyMethods)", q)
                    if m and m.group(1) in OURS and q in P.fns:
                        used.setdefault(q, (OURS[m.group(1)], f))
    k = 0
    for q, (crate, by) in sorted(used.items()):
        k += 1
        p = P.fns[q]
        r = R.use(W.fn("common_proxies", q))
        at = f"{p.file}:{p.line}"
        d = [x for x in T.subterms(proj(r.val, "data")) if x.op == "app" and x.args[0] in ("call", "raw_deploy", "raw_upgrade")]
        R.ob("call", p.name, len(d) >= 1, "the call made is not known", at)
        if not d:
            continue
        d = d[0]
        what = d.args[0]
        name = "init" if what == "raw_deploy" else "upgrade" if what == "raw_upgrade" else text(d.args[1])
        sent = list(d.args[2:] if what == "call" else d.args[1:])
        w = P.endpoints(crate).get(name)
        R.ob("endpoint", name, w is not None, f"{crate} has no such entry point", at)
        f = implements(P, w) if w is not None else None
        if w is None:
            continue
        if f is None:
            R.ob("arguments", name, not sent, "arguments nobody takes", at)
            continue
        bounds = {a: t for a, t in p.d.get("bounds", [])}
        takes = [shape(P, f.d["locals"][1 + i]) for i in range(1, f.argc)]
        R.ob("arguments", name, len(sent) == len(takes), f"{len(sent)} arguments sent, {len(takes)} taken", at)
        for i, (x, want) in enumerate(zip(sent, takes)):
            while x.op == "proj":
                x = x.args[0]
            ok = x.op == "param"
            ty = bounds.get(p.d["locals"][1 + x.args[0]]) if ok else None
            R.ob("argument", f"{name}/{i}", ty is not None and shape(P, ty) == want, f"sent as {ty}, taken as {f.d['locals'][2 + i]}", at)
        m = re.search(r"OriginalResultMarker<(.*)>>$", p.d["locals"][0])
        gives = f.d["locals"][0]
        R.ob("result", name, not m or m.group(1) == "()" or shape(P, m.group(1)) == shape(P, gives), f"read as {m and m.group(1)}, given as {gives}", at)
    R.floor("calls between our contracts", k, 10)
    # storage
    own, far = {}, []
    for p, f in P.fns.items():
        t = plain(f.d["locals"][0])
        if not (t.startswith(MAPPER) and f.crate in ("controller", "liquidity_layer", "price_aggregator")):
            continue
        n, args = split(t)
        r = W.fn(f.crate, p)
        if r.val is None or r.val.op != "mapper":
            continue
        key = next((x for x in r.val.args if isinstance(x, Term) and x.op == "skey"), None)
        if key is None or keybase(key) is None:
            continue
        kinds = tuple(shape(P, f.d["locals"][1 + x.args[0]]) for x in key.args[1:] if x.op == "param")
        row = (f, keybase(key), n, args[1:-1], kinds)
        if args[-1] == HERE:
            own.setdefault((f.crate, keybase(key)), row)
        else:
            far.append(row)
    own.setdefault(("price_aggregator", "pause_module:paused"), (None, "", MAPPER + "single_value_mapper::SingleValueMapper", ["bool"], ()))
    n = 0
    for f, base, kind, vals, kinds in far:
        at = f"{f.file}:{f.line}"
        homes = [c for c in ("liquidity_layer", "price_aggregator") if (c, base) in own]
        if f.name.startswith(("xexchange", "onedex")):
            continue
        R.ob("kept", f"{f.name}/{base}", homes, "none of our contracts keeps such an entry", at)
        for c in homes[:1]:
            n += 1
            g, _, kind2, vals2, kinds2 = own[(c, base)]
            R.ob("layout", f"{f.name}/{base}", kind == kind2 and [shape(P, x) for x in vals] == [shape(P, x) for x in vals2],
                 f"read as {vals}, kept as {vals2}", at)
            R.ob("entry", f"{f.name}/{base}", kinds == kinds2, f"entries named by {kinds}, kept by {kinds2}", at)
    R.floor("records read across contracts", n, 8)


def text(b):
    x = b.args[0] if isinstance(b, Term) else b
    return x.decode() if isinstance(x, bytes) else str(x)
