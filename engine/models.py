"""Meaning of the framework operations the contracts use (storage mappers, managed types,
big numbers, decimals, cross-contract calls).  Everything not listed here is an uninterpreted
function of its arguments."""
import re

import terms as T
from terms import (mk, INT, BYTES, app, boolval, gate, ungate, gmap, select, tup, proj, vproj, TRUE, FALSE,
                   UNIT, UNINIT, band, bor, bnot, ite, truth, Node, Term)
from interp import ABORT, Unroll, outer, divint, norm

MODELS = {}
OPT = "core::option::Option"
RES = "core::result::Result"


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ------------------------------------------------------------------ options
def some(x):
    return T.struct(OPT, "Some", ("0",), [x])


NONE = T.struct(OPT, None and "None", (), []) if False else mk("struct", OPT, "None", ())


def ok(x):
    return T.struct(RES, "Ok", ("0",), [x])


def is_some(x):
    return T.is_variant(x, OPT, "Some")


def unsome(x):
    return vproj(x, "Some", "0")


CLEARED = mk("const", "cleared")

_numre = re.compile(r"^&*(mut )?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|multiversx_sc::types::managed::wrapped::big_uint::BigUint\b.*|multiversx_sc::types::managed::basic::big_int::BigInt\b.*|multiversx_sc::types::.*::(BigUint|BigInt|NonZeroBigUint)<.*)$")


def is_numeric(ty):
    return bool(ty) and isinstance(ty, str) and bool(_numre.match(ty))


def is_dec(ty):
    return isinstance(ty, str) and "managed_decimal::ManagedDecimal" in ty.split(",")[0].split("<")[0]


def is_sdec(ty):
    return isinstance(ty, str) and ty.lstrip("&").split("<")[0].endswith("ManagedDecimalSigned")


def is_bigint(ty):
    return isinstance(ty, str) and ty.lstrip("&").split("<")[0].endswith("BigInt")


DEC = "ManagedDecimal"
SDEC = "ManagedDecimalSigned"


def dec(raw, scale, signed=False):
    return T.struct(DEC, None, ("raw", "scale"), [raw, scale])


def raw(x):
    return proj(x, "raw")


def scale_of(x):
    return proj(x, "scale")


def join_scale(a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return a if a.args[0] > b.args[0] else b
    if a.op == "int":
        return a
    if b.op == "int":
        return b
    x, y = sorted((a, b), key=lambda t: t.id)
    return app("scalejoin", x, y)


def rescale(x, s):
    """truncating rescale of the framework"""
    so = scale_of(x)
    if so is s:
        return x
    r = raw(x)

    def f(l):
        if l.op == "int" and (l.args[0] == 0 or so.op == "int" and s.op == "int" and s.args[0] >= so.args[0]):
            return INT(l.args[0] * 10 ** (s.args[0] - so.args[0])) if l.args[0] else INT(0)
        if so.op == "int" and s.op == "int":
            d = s.args[0] - so.args[0]
            return T.scale(l, 10 ** d) if d >= 0 else divint(l, INT(10 ** -d))
        return app("rescale", l, so, s)
    return dec(gmap(r, f), s)


def decdiv(x, y, s):
    """raw quotient of fixed-point values (the divisor has precision s); dividing by one changes nothing"""
    if y.op == "int" and s.op == "int" and y.args[0] == 10 ** s.args[0]:
        return x
    if x.op == y.op == s.op == "int" and y.args[0] > 0 and x.args[0] >= 0:
        return INT(x.args[0] * 10 ** s.args[0] // y.args[0])
    return app("decdiv", x, y, s)


def align(a, b):
    """two decimals' raw numbers on one scale"""
    sa, sb = scale_of(a), scale_of(b)
    if sa.op == "int" and sb.op == "int" and sa is not sb:
        if sa.args[0] < sb.args[0]:
            a = rescale(a, sb)
        else:
            b = rescale(b, sa)
    return raw(a), raw(b), join_scale(scale_of(a), scale_of(b))


# ------------------------------------------------------------------ identity-like operations
def ident(c):
    return c.args[0]


for n in ("Clone::clone", "Deref::deref", "Into::into", "AsRef::as_ref", "Borrow::borrow", "ToOwned::to_owned",
          "Option::as_ref", "Option::as_mut", "ManagedRef::clone_value", "MultiValueEncoded::to_vec", "Option::cloned", "Option::copied",
          "MultiValueEncoded::into_vec_of_counted", "From::from", "MultiValue2::into_tuple", "MultiValue3::into_tuple",
          "MultiValue4::into_tuple", "MultiValue5::into_tuple", "EsdtTokenPayment::into_tuple", "Iterator::by_ref", "DerefMut::deref_mut",
          "ManagedVec::iter", "ManagedVec::into_iter", "MultiValueEncoded::into_iter", "ManagedOption::into_option",
          "OptionalValue::into_option", "Iterator::collect", "ManagedVec::clone_value", "hint::must_use", "ManagedVec::as_multi",
          "EsdtTokenPayment::from", "EgldOrEsdtTokenPayment::into_tuple", "ManagedVecItem::borrow", "ArrayVec::as_slice", "ArrayVec::as_mut_slice",
          "str::as_bytes", "ManagedAddress::as_managed_buffer", "TokenIdentifier::as_managed_buffer", "IntoMultiValue::into_multi_value", "Box::new",
          "ManagedVec::into_vec", "AsMut::as_mut", "BorrowMut::borrow_mut", "slice::iter", "slice::to_vec", "StaticSCError::as_bytes",
          "ManagedBuffer::from", "BigUint::as_big_int", "TryInto::try_into", "ManagedDecimal::clone", "ManagedRef::deref", "NonZeroBigUint::as_big_uint",
          "NonZeroBigUint::into_big_uint", "EgldOrEsdtTokenIdentifier::as_managed_buffer", "ManagedVec::borrow"):
    MODELS[n] = ident


@model("From::from", "Into::into")
def m_from(c):
    """conversions keep the value; enum/tuple wrappers of the framework are transparent.
    EsdtTokenPayment -> EgldOrEsdtTokenPayment keep token/nonce/amount."""
    return c.args[0]


@model("MultiValueEncoded::into_iter", "IntoIterator::into_iter", "ManagedVec::iter", "ManagedVec::into_iter", "slice::iter",
       "MapMapper::iter", "MapMapper::keys", "MapMapper::values", "UnorderedSetMapper::iter", "SetMapper::iter")
def m_iter(c):
    v = c.v(0)
    n = c.f["n"]
    if v.op == "iter":
        return v
    v = mapper_value(c, v)
    if n == "keys":
        v = app("keys", v)
    elif n == "values":
        v = app("values", v)
    elif n == "iter" and "MapMapper" in c.f["p"]:
        v = app("entries", v)
    if v.op == "struct" and v.args[0].endswith("Range") and len(v.args[2]) == 2:
        a, b = v.args[3], v.args[4]
        if a.op == "int" and a.args[0] == 0 and b.op == "app" and b.args[0] == "len":
            v = app("indices", b.args[1])
        else:
            v = app("range", a, b)
    lid = around(c)
    return mk("iter", v, lid, 0)


def mapper_value(c, v):
    """the stored collection when v is a storage mapper"""
    if v.op == "mapper":
        return load(c, v)
    return v


def indices_of(x):
    return app("idx", *x)


def instep(coll):
    """a map's keys, for its values or entries: they come in the same order"""
    return app("keys", coll.args[1]) if coll.op == "app" and coll.args[0] in ("values", "entries") else coll


def elem(coll, lid, I=None, c=None):
    if coll.op == "app":
        f = coll.args[0]
        a = coll.args[1:]
        if f == "keys":
            return mk("elem", coll, lid)
        if f == "values":
            return unsome(mget(a[0], mk("elem", app("keys", a[0]), lid)))
        if f == "entries":
            k = mk("elem", app("keys", a[0]), lid)
            return tup(k, unsome(mget(a[0], k)))
        if f == "enumerate":
            return tup(mk("idx", instep(a[0]), lid), elem(a[0], lid, I, c))
        if f == "indices":
            return mk("idx", instep(a[0]), lid)
        if f == "push" and a[0].op == "app" and a[0].args[0] == "vnew":
            return a[1]
        if f in ("mapped", "filtered"):
            h = [x for x in T.subterms(tup(*a[1:])) if x.op == "bnd"]
            if not h:
                return a[1]
            b = max(h, key=lambda t: t.args[0])
            return T.rebuild(a[1], lambda x: lid if x is b else None)[0]
    return mk("elem", coll, lid)


def base_coll(coll):
    """collections walked in step"""
    if coll.op == "app":
        f = coll.args[0]
        if f in ("values", "entries"):
            return app("keys", coll.args[1])
        if f in ("enumerate", "indices"):
            return base_coll(coll.args[1])
        if f == "mapped":
            return base_coll(coll.args[1])
        if f in ("imap", "ifilter", "ifiltermap"):
            return base_coll(coll.args[1])
    return coll


def vlen(v):
    if v.op == "gate":
        return gmap(v, vlen)
    if v.op == "app":
        f = v.args[0]
        if f == "push":
            return T.add(vlen(v.args[1]), INT(1))
        if f == "vnew":
            return INT(0)
        if f == "mapped":
            return vlen(v.args[1])
        if f == "sorted":
            return vlen(v.args[1])
        if f in ("keys", "values", "entries"):
            return vlen(v.args[1])
        if f == "indices":
            return vlen(v.args[1])
        if f == "range":
            return T.sub(v.args[2], v.args[1])
        if f == "vset":
            return vlen(v.args[1])
        if f == "concat":
            return T.add(vlen(v.args[1]), vlen(v.args[2]))
        if f == "minsert":
            return T.add(vlen(v.args[1]), select(is_some(mget(v.args[1], v.args[2])), INT(0), INT(1)))
        if f == "mempty":
            return INT(0)
    if v is CLEARED:
        return INT(0)
    if v.op == "struct" and v.args[0] == "[]":
        return INT(len(v.args[2]))
    return app("len", v)


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(c):
    it = c.v(0)
    if it.op == "gate":
        ls = T.leaves(it.args[0])
        it = next((l for l in ls if isinstance(l, Term) and l.op == "iter"), it)
    if it.op != "iter":
        return c.opaque("next")
    coll, lid0, pos = it.args
    inner = outer(c.fr.loops)
    cur = inner[-1] if inner else INT(0)
    if cur is not lid0:
        if coll.op == "struct" and coll.args[0] == "[]" and len(coll.args[2]) <= 16:
            i = inner.index(lid0) + 1 if lid0 in inner else 0
            raise Unroll(inner[i] if i < len(inner) else cur)
        lid = cur
        # the loop that owns this iterator is the outermost one entered since it was made
        loops = list(inner)
        i = loops.index(lid0) + 1 if lid0 in loops else 0
        lid = loops[i] if i < len(loops) else cur
        return gen_next(c, coll, lid)
    # straight-line next
    c.set(0, mk("iter", coll, lid0, pos + 1))
    has = T.lt(INT(pos), vlen(coll))
    return select(has, some(vget(c, coll, INT(pos))), NONE)


def gen_next(c, coll, lid):
    if lazy(coll):
        has = T.atom("hasnext", base_coll(coll), lid)
        pc, mem, out = c.pc, c.mem, []
        got = items(c, coll, lid, band(pc, has), dict(mem))
        drop = [(p, m) for p, m, x in got if x is SKIP]
        if drop:
            if lid.args[0] is not c.fr.id or around(c) is not lid or not isinstance(lid.args[1], int):
                return c.opaque("next")
            c.I.skips += [(lid.args[1], p, m) for p, m in drop]
        for p, m, x in got:
            if x is not SKIP:
                m[("T",)] = some(x)
                out.append((p, m))
        mem = dict(mem)
        mem[("T",)] = NONE
        out.append((band(pc, bnot(has)), mem))
        c.pc, c.mem = c.I.merge([o for o in out if o[0] is not T.FALSE])
        return c.mem.pop(("T",))
    has = T.atom("hasnext", base_coll(coll), lid)
    return select(has, some(elem(coll, lid)), NONE)


SKIP = object()


def around(c):
    """the innermost loop around a call"""
    l = outer(c.fr.loops)
    return l[-1] if l else INT(0)


def lazy(coll):
    """an iterator whose items are computed as it is walked"""
    return coll.op == "app" and (coll.args[0] in ("imap", "ifilter", "ifiltermap") or coll.args[0] == "enumerate" and lazy(coll.args[1]))


def items(c, coll, lid, pc, mem):
    """run an iterator's closures on the current item: (pc, mem, item or SKIP) for each way this can end"""
    if not (coll.op == "app" and coll.args[0] in ("imap", "ifilter", "ifiltermap")):
        return [(pc, mem, elem(coll, lid))]
    out = []
    for p, m, x in items(c, coll.args[1], lid, pc, mem):
        if x is SKIP:
            out.append((p, m, x))
            continue
        r = c.callv(coll.args[2], [x], pc=p, mem=m)
        if r is None:
            continue
        v, p, m = r
        if coll.args[0] == "ifiltermap":
            v = c.I.val(m, v)
            got = is_some_any(v)
            out += [(q, dict(m), y) for q, y in ((band(p, got), unsome(v)), (band(p, bnot(got)), SKIP)) if q is not T.FALSE]
            continue
        if coll.args[0] == "imap":
            out.append((p, m, v))
            continue
        t = truth(c.I.val(m, v))
        out += [(q, dict(m), y) for q, y in ((band(p, t), x), (band(p, bnot(t)), SKIP)) if q is not T.FALSE]
    return out


class Walk:
    path = "iterator"

    def returns(self, t):
        return False


def walk(c, name, coll, state, step):
    """walk an iterator to its end: step(state, item) -> (new state, stop) under c.pc/c.mem; the final state"""
    lid = mk("lid", c.fr.id, c.bb, name, *c.fr.loops)
    key = ("T", name, lid)
    has = T.atom("hasnext", base_coll(coll), lid)
    fr0 = c.fr
    I = c.I

    def region(fr, p, m):
        c.fr = fr
        exits = {None: [(band(p, bnot(has)), m)], "back": []}
        for q, mm, x in items(c, coll, lid, band(p, has), dict(m)):
            if x is SKIP:
                exits["back"].append((q, mm))
                continue
            c.pc, c.mem = q, mm
            r = step(mm[key], x)
            if r is None:
                continue
            st, stop = r
            for g, to in ((stop, None), (bnot(stop), "back")):
                g = band(c.pc, g)
                if g is not T.FALSE:
                    m2 = dict(c.mem)
                    m2[key] = st if to == "back" else state[1](x) if callable(state[1]) else state[1]
                    exits[to].append((g, m2))
        c.fr = fr0
        return [], exits

    mem = dict(c.mem)
    mem[key] = state[0]
    _, exits = I.iterate(Walk(), c.fr, lid, "back", c.pc, mem, region)
    c.fr = fr0
    ends = [e for e in exits.get(None, []) if e[0] is not T.FALSE]
    if not ends:
        c.pc = T.FALSE
        return ABORT
    c.pc, c.mem = I.merge(ends)
    return c.mem.pop(key)


def running(c, clo, *args):
    """call a closure in place"""
    r = c.callv(clo, list(args))
    if r is None:
        return None
    v, c.pc, c.mem = r
    return v


def walked(c, i=0):
    it = c.v(i)
    return it.args[0] if it.op == "iter" else it


@model("Iterator::copied", "Iterator::cloned")
def m_icloned(c):
    return c.v(0)


@model("Iterator::find")
def m_ifind(c):
    def step(st, x):
        v = running(c, c.args[1], x)
        return None if v is None else (st, truth(c.I.val(c.mem, v)))
    return walk(c, "find", walked(c), (NONE, some), step)


@model("Iterator::sum")
def m_isum(c):
    return walk(c, "sum", walked(c), (INT(0), None), lambda n, x: (T.add(n, c.I.val(c.mem, x)), T.FALSE))


@model("Iterator::last")
def m_ilast(c):
    return walk(c, "last", walked(c), (NONE, None), lambda st, x: (some(x), T.FALSE))


@model("Iterator::filter", "Iterator::filter_map")
def m_filter(c):
    it = c.v(0)
    if it.op != "iter":
        it = mk("iter", it, around(c), 0)
    return mk("iter", app("ifilter" if c.f["n"] == "filter" else "ifiltermap", it.args[0], c.args[1]), it.args[1], it.args[2])


@model("Iterator::count")
def m_icount(c):
    coll = walked(c)
    return walk(c, "count", coll, (INT(0), None), lambda n, x: (T.add(n, INT(1)), T.FALSE)) if lazy(coll) else vlen(coll)


@model("Iterator::any", "Iterator::all")
def m_any(c):
    anyof = c.f["n"] == "any"

    def step(st, x):
        v = running(c, c.args[1], x)
        if v is None:
            return None
        t = truth(c.I.val(c.mem, v))
        return st, t if anyof else bnot(t)
    a, b = (boolval(T.FALSE), boolval(T.TRUE)) if anyof else (boolval(T.TRUE), boolval(T.FALSE))
    return walk(c, c.f["n"], walked(c), (a, b), step)


@model("Iterator::for_each")
def m_for_each(c):
    def step(st, x):
        return None if running(c, c.args[1], x) is None else (st, T.FALSE)
    r = walk(c, "for_each", walked(c), (INT(0), None), step)
    return r if r is ABORT else UNIT


@model("Iterator::enumerate")
def m_enum(c):
    it = c.v(0)
    if it.op != "iter":
        it = mk("iter", it, around(c), 0)
    return mk("iter", app("enumerate", it.args[0]), it.args[1], it.args[2])


@model("Iterator::map")
def m_imap(c):
    it = c.v(0)
    if it.op != "iter":
        it = mk("iter", it, around(c), 0)
    return mk("iter", app("imap", it.args[0], c.args[1]), it.args[1], it.args[2])


@model("Iterator::collect")
def m_collect(c):
    it = c.v(0)
    if it.op == "iter":
        coll = it.args[0]
        if lazy(coll):
            return walk(c, "collect", coll, (app("vnew"), None), lambda v, x: (app("push", v, x), T.FALSE))
        return coll
    return it


@model("Iterator::fold")
def m_fold(c):
    def step(acc, x):
        v = running(c, c.args[2], acc, x)
        return None if v is None else (v, T.FALSE)
    return walk(c, "fold", walked(c), (c.v(1), None), step)


# ------------------------------------------------------------------ vectors
@model("ManagedVec::new", "MultiValueEncoded::new", "ArrayVec::new", "ManagedArgBuffer::new", "Vec::new")
def m_vnew(c):
    return app("vnew")


@model("ManagedVec::from_single_item")
def m_single(c):
    return app("push", app("vnew"), c.v(0))


@model("ManagedVec::push", "MultiValueEncoded::push", "ArrayVec::push", "ManagedArgBuffer::push_arg", "Vec::push")
def m_push(c):
    c.set(0, gmap(c.get(0), lambda l: app("push", l, c.v(1))))
    return UNIT


@model("ManagedVec::len", "MultiValueEncoded::len", "slice::len", "ArrayVec::len", "MapMapper::len", "UnorderedSetMapper::len",
       "SetMapper::len", "VecMapper::len", "Vec::len", "ManagedArgBuffer::len", "MultiValueManagedVec::len", "ManagedBuffer::len")
def m_len(c):
    return vlen(mapper_value(c, c.v(0)))


@model("ManagedVec::is_empty", "MultiValueEncoded::is_empty", "slice::is_empty", "MapMapper::is_empty", "UnorderedSetMapper::is_empty",
       "SetMapper::is_empty", "ManagedBuffer::is_empty", "ManagedArgBuffer::is_empty", "ArrayVec::is_empty")
def m_vempty(c):
    return boolval(T.eqnum(vlen(mapper_value(c, c.v(0))), INT(0)))


def vget(c, v, i):
    if i.op == "elem" and i.args[0].op == "app" and i.args[0].args[:2] == ("range", INT(0)) and vlen(v) is vlen(i.args[0]):
        return elem(v, i.args[1])
    if v.op == "gate":
        return gmap(v, lambda l: vget(c, l, i))
    if v.op == "struct" and v.args[0] == "[]" and i.op == "int" and str(i.args[0]) in v.args[2]:
        return proj(v, str(i.args[0]))
    if i.op == "idx":
        coll, lid = i.args
        if coll is v:
            return elem(coll, lid)
        if v.op == "app" and v.args[0] == "mapped" and v.args[1] is coll:
            return elem(v, lid)
        if base_coll(v) is app("keys", coll) or instep(v) is coll:
            return elem(v, lid)
    if i.op == "ind":
        return elem(v, i.args[0])
    if v.op == "app" and v.args[0] == "push":
        n = vlen(v.args[1])
        if n is i:
            return v.args[2]
        if n.op == "int" and i.op == "int":
            return vget(c, v.args[1], i)
    if v.op == "app" and v.args[0] == "vset":
        if v.args[2] is i:
            return v.args[3]
        return select(T.eqnum(v.args[2], i), v.args[3], vget(c, v.args[1], i))
    t = indexed(v, i)
    if t is not None:
        return t
    return app("vget", v, i)


def indexed(v, i):
    """the item a map from key to position leads to, when both were made from the same (duplicate-free) keys:
    index[k] = position of k + n for every key, and the list holds f(k) at the position of k; then list[index[t] - n] = f(t)"""
    coll = v.args[1] if v.op == "app" and v.args[0] == "mapped" else v
    if not (coll.op == "app" and coll.args[0] == "keys"):
        return None
    c, d = T.to_lin(i)
    if len(d) != 1 or list(d.values()) != [1]:
        return None
    g = list(d)[0]
    if not (g.op == "app" and g.args[0] == "mmget" and g.args[1].op == "fold"):
        return None
    f, t = g.args[1:3]
    b = f.args[2]
    if f.args[0] is not coll or not (f.args[1].op == "app" and f.args[1].args[0] == "mnew") or f.args[4] != ():
        return None
    if not (b.op == "app" and b.args[0] == "mput" and b.args[1].op == "lvb" and b.args[1].args[0] is f.args[3]):
        return None
    k, pos = b.args[2:4]
    n, e = T.to_lin(pos)
    if not (k.op == "elem" and k.args[0] is coll and k.args[1].op == "bnd" and n == -c and len(e) == 1 and list(e.values()) == [1]):
        return None
    p = list(e)[0]
    if not (p.op == "idx" and p.args[0] is coll and p.args[1] is k.args[1] or p.op == "ind" and p.args[0] is k.args[1]):
        return None
    if v is coll:
        return t
    h = [x for x in T.subterms(v.args[2]) if x.op == "elem" and x.args[0] is coll and x.args[1].op == "bnd" and x.args[1].args[0] in T.free(v.args[2])]
    if len(h) > 1:
        return None
    if not h:
        return v.args[2]
    m = coll.args[1]
    return T.rebuild(v.args[2], lambda x: unsome(mget(m, t)) if x.op == "app" and x.args[0] == "mval" and x.args[1] is m and x.args[2] is h[0]
                     else t if x is h[0] else None)[0]


@model("ManagedVec::get", "ManagedVec::get_mut", "ArrayVec::get", "Index::index")
def m_vget(c):
    v, i = c.v(0), c.v(1)
    if i.op == "zst" or v.op == "bytes":
        return v
    v = mapper_value(c, v)
    if v.op == "struct" and v.args[0] == "[]" and i.op == "int" and str(i.args[0]) in v.args[2]:
        return proj(v, str(i.args[0]))
    return vget(c, v, i)


@model("slice::get", "ManagedVec::try_get", "Vec::get")
def m_tryget(c):
    v, i = c.v(0), c.v(1)
    return select(T.lt(i, vlen(v)), some(vget(c, v, i)), NONE)


@model("ManagedVec::set")
def m_vset(c):
    c.set(0, app("vset", c.get(0), c.v(1), c.v(2)))
    return ok(UNIT) if False else UNIT


@model("ManagedVec::remove")
def m_vremove(c):
    old = c.get(0)
    i = c.v(1)
    c.set(0, app("vremove", old, i))
    return UNIT


@model("ManagedVec::slice")
def m_slice(c):
    return some(app("slice", c.v(0), c.v(1), c.v(2)))


@model("slice::sort_unstable", "slice::sort", "ManagedVec::sort", "ManagedVec::sort_unstable")
def m_sort(c):
    if c.args[0].op == "ref":
        c.set(0, app("sorted", c.get(0)))
    return UNIT


@model("ManagedVec::contains", "ManagedVec::find", "slice::contains")
def m_vcontains(c):
    return app("contains", c.v(0), c.v(1))


# ------------------------------------------------------------------ in-memory maps
@model("ManagedMapEncoded::new", "ManagedMap::new")
def m_mnew(c):
    return app("mnew")


@model("ManagedMapEncoded::put", "ManagedMap::put")
def m_mput(c):
    k, x = c.v(1), c.v(2)
    c.set(0, gmap(c.get(0), lambda l: app("mput", l, k, x)))
    return UNIT


def mmget(m, k):
    if m.op == "gate":
        return gmap(m, lambda l: mmget(l, k))
    if m.op == "app" and m.args[0] == "mput":
        return select(T.eqv(m.args[2], k), m.args[3], mmget(m.args[1], k))
    return app("mmget", m, k)


def mmhas(m, k):
    if m.op == "gate":
        return T.map_leaves(m.args[0], lambda l: mmhas(l, k))
    if m.op == "app" and m.args[0] == "mput":
        return bor(T.eqv(m.args[2], k), mmhas(m.args[1], k))
    if m.op == "app" and m.args[0] == "mnew":
        return FALSE
    return truth(app("mmhas", m, k))


@model("ManagedMapEncoded::get", "ManagedMap::get")
def m_mmget(c):
    return mmget(c.v(0), c.v(1))


@model("ManagedMapEncoded::contains", "ManagedMap::contains")
def m_mmhas(c):
    return boolval(mmhas(c.v(0), c.v(1)))


@model("ManagedMapEncoded::remove")
def m_mmremove(c):
    old = c.get(0)
    k = c.v(1)
    c.set(0, app("mdel", old, k))
    return mmget(old, k)


# ------------------------------------------------------------------ storage
@model("StorageKey::new")
def m_skey(c):
    return mk("skey", c.v(0))


@model("StorageKey::append_item")
def m_skey_app(c):
    c.set(0, mk("skey", *c.get(0).args, c.v(1)))
    return UNIT


def type_args(ty):
    """top-level generic arguments of a printed type"""
    i = ty.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:-1]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


SELF = mk("const", "self_storage")


@model("StorageMapper::new", "SingleValueMapper::new", "MapMapper::new", "UnorderedSetMapper::new", "SetMapper::new",
       "NonFungibleTokenMapper::new", "FungibleTokenMapper::new", "MapStorageMapper::new")
def m_mapper(c):
    ty = c.ty[0] if c.ty else ""
    kind = ty.split("<")[0].split("::")[-1]
    return mk("mapper", kind, c.v(0), SELF, ty)


@model("StorageMapperFromAddress::new_from_address", "SingleValueMapper::new_from_address", "MapMapper::new_from_address")
def m_mapper_addr(c):
    ty = c.ty[0] if c.ty else ""
    kind = ty.split("<")[0].split("::")[-1]
    return mk("mapper", kind, c.v(1), c.v(0), ty)


def mkey(m):
    return ("S", m.args[1], m.args[2])


def settled(c, m):
    """the mapper with each part of its key that this path decides spelled as decided"""
    if not any(isinstance(a, Term) and a.op == "gate" for a in m.args[1].args[1:]):
        return m
    ks = []
    for a in m.args[1].args:
        if isinstance(a, Term) and a.op == "gate":
            g = T.gate(T.restrict(a.args[0], c.pc))
            a = a if g.op == "gate" else g
        ks.append(a)
    return mk("mapper", m.args[0], mk("skey", *ks), *m.args[2:])


def aliases(mem, key):
    """the other cells in memory that may be this one: (when, value), in the order they were first written"""
    sk, addr = key[1:]
    out = []
    for k, w in mem.items():
        if k[0] == "S" and k is not key and k != key and k[1].args[0] is sk.args[0] and len(k[1].args) == len(sk.args):
            eq = TRUE
            for p, q in zip(k[1].args[1:], sk.args[1:]):
                eq = band(eq, T.eqv(p, q))
            if k[2] is not addr:
                eq = FALSE if SELF in (k[2], addr) else band(eq, T.eqv(k[2], addr))
            if eq is not FALSE:
                out.append((eq, w, k))
    return out


def load(c, m):
    """current value behind a mapper"""
    if m.op == "gate":
        return gmap(m, lambda l: load(c, l))
    if m.op != "mapper":
        return app("mapped_value", m)
    m = settled(c, m)
    key = mkey(m)
    mem = c.mem
    v = mem.get(key)
    sk, addr = m.args[1], m.args[2]
    if v is None:
        v = sload(c, sk, addr)
        others = aliases(mem, key)
        for eq, w, _ in others:
            v = select(eq, w, v)
    c.event("sload", key=sk, addr=addr, value=v, ty=m.args[3])
    return v


def sload(c, sk, addr):
    e = c.mem.get(("E", "epoch"))
    if e is not None and addr is SELF:
        return mk("sload", sk, addr, e)
    return mk("sload", sk, addr)


def store(c, m, v, op="set", **kw):
    if m.op != "mapper":
        c.event("store", key=mk("skey", BYTES("?"), m), addr=SELF, value=v, op=op, old=UNINIT, ty="", **kw)
        return
    m = settled(c, m)
    old = c.mem.get(mkey(m))
    if old is None:
        n = len(c.I.events)
        s = c.I.seq
        old = load(c, m)
        del c.I.events[n:]
        c.I.seq = s
    c.event("store", key=m.args[1], addr=m.args[2], value=v, op=op, old=old, ty=m.args[3], **kw)
    for eq, w, k in aliases(c.mem, mkey(m)):
        if band(c.pc, eq) is not FALSE:
            c.mem[k] = select(eq, v, w)
    c.mem[mkey(m)] = v


def vtype(m):
    a = type_args(m.args[3])
    return a[1] if len(a) > 1 else ""


def default_of(ty):
    if is_numeric(ty):
        return INT(0)
    if ty == "bool":
        return boolval(FALSE)
    return CLEARED


@model("SingleValueMapper::get", "SingleValueMapper::take")
def m_svget(c):
    m = c.v(0)
    v = load(c, m)
    if c.f["n"] == "take":
        store(c, m, default_of(vtype(m)) if m.op == "mapper" else CLEARED, "clear")
    return v


@model("SingleValueMapper::set", "SingleValueMapper::replace", "SingleValueMapper::set_if_empty")
def m_svset(c):
    m = c.v(0)
    v = c.v(1)
    if c.f["n"] == "set_if_empty":
        old = load(c, m)
        e = isempty(old, vtype(m))
        v = select(e, v, old)
    old = load(c, m) if c.f["n"] == "replace" else None
    store(c, m, v)
    return old if old is not None else UNIT


@model("SingleValueMapper::clear")
def m_svclear(c):
    m = c.v(0)
    store(c, m, default_of(vtype(m)) if m.op == "mapper" else CLEARED, "clear")
    return UNIT


def isempty(v, ty):
    if v is CLEARED:
        return TRUE
    if is_numeric(ty):
        return T.eqnum(v, INT(0))
    if ty == "bool":
        return bnot(truth(v))
    if v.op == "gate":
        return T.map_leaves(v.args[0], lambda l: isempty(l, ty))
    if v.op == "struct" and not is_dec(ty):
        return FALSE
    return truth(app("isempty", v))


@model("SingleValueMapper::is_empty")
def m_svempty(c):
    m = c.v(0)
    return boolval(isempty(load(c, m), vtype(m) if m.op == "mapper" else ""))


@model("SingleValueMapper::update")
def m_svupdate(c):
    m = c.v(0)
    v = load(c, m)
    key = ("T", "upd", c.fr.id, c.bb)
    c.mem[key] = v
    r = c.callv(c.args[1], [mk("ref", key, ())])
    if r is None:
        return ABORT
    val, c.pc, c.mem = r
    nv = c.I.val(c.mem, c.mem.pop(key))
    store(c, m, nv, "update")
    return val


# whole-map values
def mget(m, k):
    if m.op == "gate":
        return gmap(m, lambda l: mget(l, k))
    if m.op == "app" and m.args[0] == "minsert":
        return select(T.eqv(m.args[2], k), some(m.args[3]), mget(m.args[1], k))
    if m.op == "app" and m.args[0] == "mremove":
        return select(T.eqv(m.args[2], k), NONE, mget(m.args[1], k))
    if m is CLEARED or m.op == "app" and m.args[0] == "mempty":
        return NONE
    if k.op == "elem" and k.args[0].op == "app" and k.args[0].args[0] == "keys" and k.args[0].args[1] is m:
        return some(app("mval", m, k))
    return app("mget", m, k)


def mhas(m, k):
    return is_some(mget(m, k))


@model("MapMapper::get")
def m_mapget(c):
    return mget(load(c, c.v(0)), c.v(1))


@model("MapMapper::contains_key")
def m_maphas(c):
    return boolval(mhas(load(c, c.v(0)), c.v(1)))


@model("MapMapper::insert")
def m_mapinsert(c):
    m, k, v = c.v(0), c.v(1), c.v(2)
    old = cur(c, m)
    store(c, m, gmap(old, lambda l: app("minsert", l, k, v)), "insert", mkey=k, mval=v)
    return mget(old, k)


def cur(c, m):
    n, s = len(c.I.events), c.I.seq
    v = load(c, m)
    del c.I.events[n:]
    c.I.seq = s
    return v


@model("MapMapper::remove")
def m_mapremove(c):
    m, k = c.v(0), c.v(1)
    old = cur(c, m)
    store(c, m, gmap(old, lambda l: app("mremove", l, k)), "remove", mkey=k)
    return mget(old, k)


@model("MapMapper::clear", "UnorderedSetMapper::clear", "SetMapper::clear", "StorageClearable::clear", "MapStorageMapper::clear")
def m_mapclear(c):
    store(c, c.v(0), CLEARED, "clear")
    return UNIT


@model("MapMapper::entry", "MapStorageMapper::entry")
def m_entry(c):
    m = c.v(0)
    if m.op == "mapper" and m.args[1].op == "skey" and m.args[0] == "MapStorageMapper":
        return app("entry", m, c.v(1))
    return app("entry", m, c.v(1))


def submapper(m, k, ty):
    """the mapper a MapStorageMapper keeps under key k"""
    a = type_args(m.args[3]) if m.op == "mapper" else []
    sub = a[2] if len(a) > 2 else ty
    kind = sub.split("<")[0].split("::")[-1]
    return mk("mapper", kind, mk("skey", *m.args[1].args, k), m.args[2], sub)


@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with")
def m_ordefault(c):
    e = c.v(0)
    m, k = e.args[1], e.args[2]
    if m.op == "mapper" and m.args[0] == "MapStorageMapper":
        mp = cur(c, m)
        has = mhas(mp, k)
        if has is not TRUE:
            store(c, m, select(has, mp, gmap(mp, lambda l: app("minsert", l, k, UNIT))), "entry", mkey=k)
        return app("occ", m, k)
    d = c.v(1) if len(c.args) > 1 else default_of(type_args(m.args[3])[2] if len(type_args(m.args[3])) > 2 else "")
    mp = cur(c, m)
    has = mhas(mp, k)
    store(c, m, select(has, mp, gmap(mp, lambda l: app("minsert", l, k, d))), "entry", mkey=k, mval=d)
    return app("occ", m, k)


@model("OccupiedEntry::get")
def m_occget(c):
    o = c.v(0)
    m, k = o.args[1], o.args[2]
    if m.op == "mapper" and m.args[0] == "MapStorageMapper":
        return submapper(m, k, "")
    return unsome(mget(load(c, m), k))


@model("Entry::and_modify")
def m_andmod(c):
    e = c.v(0)
    m, k = e.args[1], e.args[2]
    mp = load(c, m)
    old = mget(mp, k)
    key = ("T", "ent", c.fr.id, c.bb)

    def yes():
        c.mem[key] = unsome(old)
        r = c.callv(c.args[1], [mk("ref", key, ())])
        if r is None:
            return ABORT
        _, c.pc, c.mem = r
        nv = c.I.val(c.mem, c.mem.pop(key))
        store(c, m, gmap(cur(c, m), lambda l: app("minsert", l, k, nv)), "update", mkey=k, mval=nv)
        return e
    return c.branch(is_some(old), yes, lambda: e)


@model("MapStorageMapper::get")
def m_msget(c):
    m, k = c.v(0), c.v(1)
    return select(mhas(load(c, m), k), some(submapper(m, k, "")), NONE)


@model("MapStorageMapper::contains_key")
def m_mshas(c):
    return boolval(mhas(load(c, c.v(0)), c.v(1)))


@model("MapStorageMapper::insert_default")
def m_msins(c):
    m, k = c.v(0), c.v(1)
    store(c, m, gmap(cur(c, m), lambda l: app("minsert", l, k, UNIT)), "insert", mkey=k)
    return NONE


@model("MapStorageMapper::remove")
def m_msrem(c):
    m, k = c.v(0), c.v(1)
    old = cur(c, m)
    store(c, m, gmap(old, lambda l: app("mremove", l, k)), "remove", mkey=k)
    sub = submapper(m, k, "")
    store(c, sub, CLEARED, "clear")
    return boolval(mhas(old, k))


@model("call_value_init::payable_egld")
def m_payegld(c):
    c.event("payable", mode="egld")
    return UNIT


@model("tx_env_sc::new_tx_from_sc")
def m_newtx(c):
    return mk("struct", "Tx", None, TXF, UNIT, UNIT, NOPAY, UNIT, app("rets"))


@model("EgldOrEsdtTokenIdentifier::is_valid", "TokenIdentifier::ticker", "TokenIdentifier::is_valid_esdt_identifier", "EsdtTokenData::decode_attributes",
       "EgldOrEsdtTokenIdentifier::is_empty")
def m_pureapp(c):
    return app(c.f["n"], *c.vals())


# sets
def shas(s, k):
    if s.op == "gate":
        return T.map_leaves(s.args[0], lambda l: shas(l, k))
    if s.op == "app" and s.args[0] == "sinsert":
        return bor(T.eqv(s.args[2], k), shas(s.args[1], k))
    if s.op == "app" and s.args[0] == "sremove":
        return band(bnot(T.eqv(s.args[2], k)), shas(s.args[1], k))
    if s is CLEARED:
        return FALSE
    if k.op == "elem" and k.args[0] is s:
        return TRUE
    return truth(app("shas", s, k))


@model("UnorderedSetMapper::contains", "SetMapper::contains", "WhitelistMapper::contains")
def m_shas(c):
    return boolval(shas(load(c, c.v(0)), c.v(1)))


@model("UnorderedSetMapper::insert", "SetMapper::insert")
def m_sinsert(c):
    m, k = c.v(0), c.v(1)
    old = cur(c, m)
    store(c, m, gmap(old, lambda l: app("sinsert", l, k)), "insert", mkey=k, mval=UNIT)
    return boolval(bnot(shas(old, k)))


@model("UnorderedSetMapper::swap_remove", "SetMapper::remove", "UnorderedSetMapper::remove")
def m_sremove(c):
    m, k = c.v(0), c.v(1)
    old = cur(c, m)
    store(c, m, gmap(old, lambda l: app("sremove", l, k)), "remove", mkey=k)
    return boolval(shas(old, k))


# token mapper
@model("NonFungibleTokenMapper::get_token_id", "NonFungibleTokenMapper::get_token_id_ref", "FungibleTokenMapper::get_token_id")
def m_tokid(c):
    return app("token_id", load(c, c.v(0)))


@model("NonFungibleTokenMapper::require_same_token")
def m_sametok(c):
    m = c.v(0)
    cond = T.eqv(app("token_id", load(c, m)), c.v(1))
    c.event("abort", msg="token mapper: wrong token", cond=bnot(cond))
    c.pc = band(c.pc, cond)
    return UNIT if c.pc is not FALSE else ABORT


@model("NonFungibleTokenMapper::nft_burn")
def m_burn(c):
    c.event("burn", mapper=c.v(0).args[1], nonce=c.v(1), amount=c.v(2))
    return UNIT


@model("SendWrapper::esdt_nft_create", "SendWrapper::esdt_nft_create_compact", "SendWrapper::esdt_nft_create_as_caller")
def m_create(c):
    a = c.vals()
    r = mk("newnonce", c.site())
    c.event("mint", args=a[1:], nonce=r)
    return r


@model("SendWrapper::esdt_local_burn", "SendWrapper::nft_update_attributes")
def m_sendop(c):
    c.event("sendop", op=c.f["n"], args=c.vals()[1:])
    return UNIT


# ------------------------------------------------------------------ chain environment
@model("ContractBase::blockchain", "ContractBase::call_value", "ContractBase::send", "ContractBase::error", "ContractBase::crypto")
def m_env(c):
    return mk("env", c.f["n"])


@model("BlockchainWrapper::get_caller")
def m_caller(c):
    return mk("env", "caller")


@model("BlockchainWrapper::get_sc_address")
def m_self(c):
    return mk("env", "self")


@model("BlockchainWrapper::get_owner_address")
def m_owner(c):
    return mk("env", "owner")


@model("BlockchainWrapper::get_block_timestamp")
def m_now(c):
    return mk("env", "now")


@model("BlockchainWrapper::get_block_timestamp_ms")
def m_nowms(c):
    return mk("env", "now_ms")


@model("BlockchainWrapper::get_block_nonce", "BlockchainWrapper::get_block_epoch", "BlockchainWrapper::get_block_round")
def m_block(c):
    return mk("env", c.f["n"][4:])


@model("BlockchainWrapper::get_sc_balance", "BlockchainWrapper::get_balance", "BlockchainWrapper::get_esdt_balance")
def m_balance(c):
    a = c.vals()[1:]
    v = app("balance", c.mem.get(("E", "balance"), INT(0)), *a)
    c.event("balance", token=a[0], value=v)
    return v


@model("BlockchainWrapper::check_caller_is_owner")
def m_owneronly(c):
    cond = T.eqv(mk("env", "caller"), mk("env", "owner"))
    c.event("abort", msg="only owner", cond=bnot(cond))
    c.pc = band(c.pc, cond)
    return UNIT


@model("BlockchainWrapper::is_smart_contract", "BlockchainWrapper::is_builtin_function", "BlockchainWrapper::get_shard_of_address",
       "BlockchainWrapper::get_esdt_token_data")
def m_bq(c):
    return app(c.f["n"], *c.vals()[1:])


@model("VMApi::init_static")
def m_unit(c):
    return UNIT


for n in ("log_util::write_log", "FormatBuffer::append_ascii", "FormatBuffer::append_display", "FormatBuffer::append_bytes"):
    MODELS[n] = m_unit


@model("finish::finish_multi")
def m_finish(c):
    v = c.v(0)
    c.event("result", value=mapper_value(c, v) if isinstance(v, T.Term) else v)
    return UNIT


@model("call_value_init::not_payable")
def m_notpay(c):
    c.event("payable", mode="none")
    cond = T.eqnum(mk("len_transfers"), INT(0)) if False else truth(mk("env", "no_payment"))
    c.pc = band(c.pc, cond)
    return UNIT


@model("call_value_init::payable_any")
def m_payany(c):
    c.event("payable", mode="any")
    return UNIT


TRANSFERS = mk("env", "transfers")
PAYMENT = mk("env", "payment")


@model("CallValueWrapper::all_transfers", "CallValueWrapper::all_esdt_transfers", "CallValueWrapper::any_payment", "CallValueWrapper::all")
def m_alltr(c):
    return TRANSFERS


@model("CallValueWrapper::egld_or_single_esdt", "CallValueWrapper::single_esdt", "CallValueWrapper::egld_or_single_fungible_esdt",
       "CallValueWrapper::single_fungible_esdt", "CallValueWrapper::single")
def m_single_pay(c):
    n = c.f["n"]
    p = PAYMENT
    if n == "egld_or_single_fungible_esdt":
        return tup(proj(p, "token_identifier"), proj(p, "amount"))
    if n == "single_fungible_esdt":
        return tup(proj(p, "token_identifier"), proj(p, "amount"))
    return p


@model("CallValueWrapper::egld", "CallValueWrapper::egld_value", "CallValueWrapper::egld_direct_non_strict")
def m_egldval(c):
    return mk("env", "egld_value")


@model("CallValueWrapper::multi_esdt")
def m_multi(c):
    return mk("env", "multi_esdt")


@model("arg_nested_tuple::load_endpoint_args", "arg_nested_tuple::load_callback_closure_args")
def m_args(c):
    names = c.v(0)
    out, i, cur_ = [], 0, names
    while cur_.op == "struct" and len(cur_.args) == 5:
        out.append(cur_.args[3])
        cur_ = cur_.args[4]
    r = UNIT
    for i in reversed(range(len(out))):
        c.I.arg_names = getattr(c.I, "arg_names", {})
        c.I.arg_names[i] = out[i].args[0] if out[i].op == "bytes" else str(i)
        r = tup(mk("arg", i), r)
    return r


# ------------------------------------------------------------------ aborts
def _msg(v):
    if v.op == "bytes":
        return v.args[0]
    if v.op == "const":
        return v.args[0].split("::")[-1]
    return T.show(v, 3)


@model("ErrorHelper::signal_error_with_message", "sc_error::signal_error", "ErrorApiImpl::signal_error", "panicking::panic_fmt",
       "panicking::panic", "option::unwrap_failed", "option::expect_failed", "panicking::panic_str", "result::unwrap_failed")
def m_abort(c):
    v = c.vals()
    c.event("abort", msg=_msg(v[-1]) if v else "panic", cond=TRUE)
    return ABORT


# ------------------------------------------------------------------ comparison operators
def tyname(c, i=0):
    return (c.ty[i] if i < len(c.ty) else "").lstrip("&")


def numargs(c):
    """(a, b, signed) for a comparison/equality of numbers, or None"""
    a, b = c.v(0), c.v(1)
    ta, tb = tyname(c, 0), tyname(c, 1) if len(c.ty) > 1 else tyname(c, 0)
    if is_sdec(ta) or is_sdec(tb):
        x, y, _ = align(a, b)
        return x, y, True
    if is_dec(ta) and is_dec(tb):
        x, y, _ = align(a, b)
        return x, y, False
    if is_dec(ta) or is_dec(tb):
        return (raw(a) if is_dec(ta) else a), (raw(b) if is_dec(tb) else b), False
    if is_bigint(ta) or is_bigint(tb):
        return a, b, True
    if is_numeric(ta) or is_numeric(tb):
        return a, b, False
    return None


@model("PartialEq::eq")
def m_eq(c):
    n = numargs(c)
    if n:
        return boolval(T.eqnum(n[0], n[1], n[2]))
    return boolval(c.I.equal(c.v(0), c.v(1), tyname(c)))


@model("PartialEq::ne")
def m_ne(c):
    return boolval(bnot(truth(m_eq(c))))


def _cmp(c, f):
    n = numargs(c)
    a, b, s = n if n else (c.v(0), c.v(1), False)
    return boolval(f(a, b, s))


MODELS["PartialOrd::lt"] = lambda c: _cmp(c, lambda a, b, s: T.lt(a, b, s))
MODELS["PartialOrd::le"] = lambda c: _cmp(c, lambda a, b, s: T.le(a, b, s))
MODELS["PartialOrd::gt"] = lambda c: _cmp(c, lambda a, b, s: T.lt(b, a, s))
MODELS["PartialOrd::ge"] = lambda c: _cmp(c, lambda a, b, s: T.le(b, a, s))


def _ordering(n):
    return mk("struct", "core::cmp::Ordering", n, ())


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(c):
    n = numargs(c)
    a, b, s = n if n else (c.v(0), c.v(1), False)
    r = select(T.lt(a, b, s), _ordering("Less"), select(T.lt(b, a, s), _ordering("Greater"), _ordering("Equal")))
    return some(r) if c.f["n"] == "partial_cmp" else r


@model("Ord::min", "cmp::min", "BigUint::min")
def m_min(c):
    n = numargs(c)
    return select(T.lt(n[0], n[1], n[2]) if n else T.lt(c.v(0), c.v(1)), c.v(0), c.v(1))


@model("Ord::max", "cmp::max", "BigUint::max")
def m_max(c):
    n = numargs(c)
    return select(T.lt(n[1], n[0], n[2]) if n else T.lt(c.v(1), c.v(0)), c.v(0), c.v(1))


@model("Ord::clamp")
def m_clamp(c):
    x, lo, hi = c.v(0), c.v(1), c.v(2)
    if numargs(c) is None or is_dec(tyname(c)) or is_sdec(tyname(c)):
        return c.opaque("clamp")
    sg = numargs(c)[2]
    return select(T.lt(x, lo, sg), lo, select(T.lt(hi, x, sg), hi, x))


@model("num::saturating_sub", "num::checked_sub", "num::abs_diff", "num::wrapping_sub")
def m_subs(c):
    a, b = c.v(0), c.v(1)
    n = c.f["n"]
    under = T.lt(a, b)
    if n == "checked_sub":
        return select(under, NONE, some(T.sub(a, b)))
    if n == "wrapping_sub":
        return select(under, app("wrap", a, b), T.sub(a, b))
    return select(under, INT(0) if n == "saturating_sub" else T.sub(b, a), T.sub(a, b))


@model("num::saturating_add", "num::checked_add")
def m_adds(c):
    v = T.add(c.v(0), c.v(1))
    if c.f["n"] == "saturating_add":
        return v
    return select(T.atom("fits", v), some(v), NONE)


@model("RangeInclusive::new")
def m_rangei(c):
    return app("rangei", c.v(0), c.v(1))


@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains")
def m_rangehas(c):
    r, x = c.v(0), c.v(1)
    if r.op == "app" and r.args[0] == "rangei":
        return boolval(band(bnot(T.lt(x, r.args[1])), bnot(T.lt(r.args[2], x))))
    if r.op == "struct" and r.args[0].endswith("Range") and len(r.args[2]) == 2:
        return boolval(band(bnot(T.lt(x, r.args[3])), T.lt(x, r.args[4])))
    return c.opaque("contains")


@model("Result::is_ok", "Result::is_err")
def m_isok(c):
    ok = T.is_variant(c.v(0), RES, "Ok")
    return boolval(ok if c.f["n"] == "is_ok" else bnot(ok))


@model("Result::ok")
def m_ok(c):
    x = c.v(0)
    return select(T.is_variant(x, RES, "Ok"), some(vproj(x, "Ok", "0")), NONE)


@model("ManagedVec::append_vec", "ManagedVec::extend", "Extend::extend")
def m_append(c):
    w = c.v(1)
    c.set(0, app("concat", c.get(0), w.args[0] if w.op == "iter" else w))
    return UNIT


@model("ManagedVec::clear")
def m_vclear(c):
    c.set(0, app("vnew"))
    return UNIT


@model("ManagedVec::overwrite_with_single_item")
def m_vover(c):
    c.set(0, app("push", app("vnew"), c.v(1)))
    return UNIT


# ------------------------------------------------------------------ arithmetic
def arith(c, op, a, b):
    ta, tb = tyname(c, 0), (tyname(c, 1) if len(c.ty) > 1 else tyname(c, 0))
    da, db = is_dec(ta) or is_sdec(ta), is_dec(tb) or is_sdec(tb)
    if da or db:
        if not da:
            a = dec(a, INT(0))
        if not db:
            b = dec(b, INT(0))
        if op in ("add", "sub"):
            x, y, s = align(a, b)
            return dec(T.add(x, y) if op == "add" else T.sub(x, y), s)
        if op == "mul":
            return dec(T.mul_g(raw(a), raw(b)), T.add(scale_of(a), scale_of(b)))
        if op == "div":
            return dec(T.lift2(raw(a), raw(b), lambda x, y: decdiv(x, y, scale_of(b))), scale_of(a))
    if op == "add":
        return T.add(a, b)
    if op == "sub":
        return T.sub(a, b)
    if op == "mul":
        return T.mul_g(a, b)
    if op == "div":
        return divint(a, b)
    if op == "rem":
        return T.lift2(a, b, lambda x, y: app("rem", x, y))
    return app(op, a, b)


for nm, op in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul"), ("Div::div", "div"), ("Rem::rem", "rem")):
    MODELS[nm] = (lambda op: lambda c: arith(c, op, c.v(0), c.v(1)))(op)


def _assign(op):
    def f(c):
        a, b = c.get(0), c.v(1)
        ta = tyname(c, 0)
        if op in ("add", "sub") and (is_dec(ta) or is_sdec(ta)):
            # in place: the right side is brought to the left side's precision
            b = rescale(b, scale_of(a))
        c.set(0, arith(c, op, a, b))
        return UNIT
    return f


for nm, op in (("AddAssign::add_assign", "add"), ("SubAssign::sub_assign", "sub"), ("MulAssign::mul_assign", "mul"),
               ("DivAssign::div_assign", "div"), ("RemAssign::rem_assign", "rem")):
    MODELS[nm] = _assign(op)


@model("BitOr::bitor", "BitAnd::bitand", "Shl::shl", "Shr::shr")
def m_bit(c):
    return app(c.f["n"], *c.vals())


@model("Not::not")
def m_not(c):
    return boolval(bnot(truth(c.v(0))))


@model("Neg::neg")
def m_neg(c):
    a = c.v(0)
    if is_sdec(tyname(c)):
        return dec(T.scale_g(raw(a), -1), scale_of(a))
    return T.scale_g(a, -1)


@model("BigUint::zero", "BigInt::zero", "BigUint::default")
def m_zero(c):
    return INT(0)


@model("BigUint::pow", "BigInt::pow", "num::pow")
def m_pow(c):
    a, b = c.v(0), c.v(1)
    if a.op == "int" and b.op == "int" and b.args[0] < 200:
        return INT(a.args[0] ** b.args[0])
    return app("pow", a, b)


@model("BigUint::sqrt")
def m_sqrt(c):
    return app("sqrt", c.v(0))


@model("BigInt::sign", "ManagedDecimalSigned::sign", "BigUint::sign")
def m_sign(c):
    x = c.v(0)
    if c.f["p"].find("ManagedDecimal") >= 0:
        x = raw(x)
    S = "multiversx_sc::types::managed::basic::big_int_sign::Sign"
    u = lambda n: mk("struct", S, n, ())
    return select(T.lt(x, INT(0), True), u("Minus"), select(T.lt(INT(0), x, True), u("Plus"), u("NoSign")))


@model("BigUint::to_u64", "BigInt::to_i64")
def m_tou64(c):
    return some(c.v(0))


@model("Default::default")
def m_default(c):
    ty = tyname(c)
    if is_numeric(ty):
        return INT(0)
    if ty == "bool":
        return boolval(FALSE)
    if "ManagedVec" in ty.split("<")[0] or "MultiValueEncoded" in ty.split("<")[0]:
        return app("vnew")
    return mk("const", "default:" + ty)


# decimals
@model("ManagedDecimal::from_raw_units", "ManagedDecimalSigned::from_raw_units")
def m_fromraw(c):
    return dec(c.v(0), c.v(1))


@model("ManagedDecimal::into_raw_units", "ManagedDecimalSigned::into_raw_units", "ManagedDecimal::as_raw_units")
def m_intoraw(c):
    return raw(c.v(0))


@model("ManagedDecimal::scale", "ManagedDecimalSigned::scale", "ManagedDecimal::decimals")
def m_scale(c):
    return scale_of(c.v(0))


@model("ManagedDecimal::rescale", "ManagedDecimalSigned::rescale")
def m_rescale(c):
    return rescale(c.v(0), c.v(1))


@model("ManagedDecimal::into_signed", "ManagedDecimal::const_decimals_from_raw")
def m_intosigned(c):
    return c.v(0)


@model("ManagedDecimalSigned::into_unsigned_or_fail")
def m_unsigned(c):
    x = c.v(0)
    cond = bnot(T.lt(raw(x), INT(0), True))
    c.event("abort", msg="negative decimal", cond=bnot(cond))
    c.pc = band(c.pc, cond)
    return x if c.pc is not FALSE else ABORT


@model("ManagedDecimal::trunc")
def m_trunc(c):
    return app("trunc", c.v(0))


# ------------------------------------------------------------------ options / results
@model("Option::is_some", "ManagedOption::is_some", "OptionalValue::is_some")
def m_issome(c):
    return boolval(is_some_any(c.v(0)))


def is_some_any(x):
    """Option, OptionalValue and ManagedOption are one type here"""
    return T.is_variant(x, OPT, "Some")


@model("Option::is_none", "ManagedOption::is_none", "OptionalValue::is_none")
def m_isnone(c):
    return boolval(bnot(is_some_any(c.v(0))))


@model("ManagedOption::some")
def m_some(c):
    return some(c.v(0))


@model("ManagedOption::none")
def m_none(c):
    return NONE


@model("Option::unwrap", "Option::expect", "Option::unwrap_or_sc_panic", "ManagedOption::unwrap_or_sc_panic", "ManagedOption::unwrap_no_check")
def m_unwrap(c):
    x = c.v(0)
    cond = is_some_any(x)
    if cond is not TRUE:
        c.event("abort", msg="unwrap on none", cond=bnot(cond))
    c.pc = band(c.pc, cond)
    return unsome(x) if c.pc is not FALSE else ABORT


@model("Option::unwrap_unchecked")
def m_unwrap_u(c):
    x = c.v(0)
    c.pc = band(c.pc, is_some_any(x))
    return unsome(x) if c.pc is not FALSE else ABORT


@model("Option::unwrap_or")
def m_unwrap_or(c):
    x = c.v(0)
    return select(is_some_any(x), unsome(x), c.v(1))


@model("Option::unwrap_or_default")
def m_unwrap_def(c):
    x = c.v(0)
    ty = tyname(c)
    d = INT(0) if is_numeric(ty) else boolval(FALSE) if ty == "bool" else None
    if d is None and (ty, ) and c.I.P.fns.get(ty):
        d = None
    if d is None:
        # workspace Default implementations
        lst = [f for f in c.I.P.impls.get(("core::default::Default", "default"), []) if (f.d.get("selfty") or "").split("<")[0] == ty.split("<")[0]]
        if lst:
            r = c.I.inline(lst[0], [], c.fr, c.bb, c.pc, c.mem, c.line)
            if r:
                d = r[0]
                c.mem = r[2]
    if d is None:
        d = mk("const", "default:" + ty)
    return select(is_some_any(x), unsome(x), d)


@model("Option::unwrap_or_else", "Result::unwrap_or_else", "ManagedOption::unwrap_or_else")
def m_unwrap_else(c):
    x = c.v(0)
    isopt = "Result" not in norm(c.f["p"])
    cond = is_some_any(x) if isopt else T.is_variant(x, RES, "Ok")
    good = unsome(x) if isopt else vproj(x, "Ok", "0")

    def no():
        r = c.callv(c.args[1], [] if isopt else [vproj(x, "Err", "0")])
        if r is None:
            return ABORT
        v, c.pc, c.mem = r
        return v
    return c.branch(cond, lambda: good, no)


@model("bool::then", "bool::then_some")
def m_then(c):
    def yes():
        if c.f["n"] == "then_some":
            return some(c.v(1))
        v = running(c, c.args[1])
        return ABORT if v is None else some(v)
    return c.branch(truth(c.v(0)), yes, lambda: NONE)


@model("Option::filter")
def m_optfilter(c):
    x = c.v(0)

    def yes():
        v = running(c, c.args[1], unsome(x))
        return ABORT if v is None else select(truth(c.I.val(c.mem, v)), x, NONE)
    return c.branch(is_some_any(x), yes, lambda: NONE)


@model("Option::or", "Option::or_else")
def m_optor(c):
    def no():
        if c.f["n"] == "or":
            return c.v(1)
        v = running(c, c.args[1])
        return ABORT if v is None else c.I.val(c.mem, v)
    return c.branch(is_some_any(c.v(0)), lambda: c.v(0), no)


@model("Option::is_none_or")
def m_isnoneor(c):
    def yes():
        v = running(c, c.args[1], unsome(c.v(0)))
        return ABORT if v is None else c.I.val(c.mem, v)
    return c.branch(is_some_any(c.v(0)), yes, lambda: boolval(TRUE))


@model("Option::zip")
def m_optzip(c):
    a, b = c.v(0), c.v(1)
    return select(band(is_some_any(a), is_some_any(b)), some(tup(unsome(a), unsome(b))), NONE)


@model("Option::take", "Option::replace", "Option::insert")
def m_opttake(c):
    old = c.get(0)
    if c.f["n"] == "insert":
        return c.opaque("insert")
    c.set(0, NONE if c.f["n"] == "take" else some(c.v(1)))
    return old


@model("Option::map", "Option::and_then", "ManagedOption::map")
def m_optmap(c):
    x = c.v(0)

    def yes():
        r = c.callv(c.args[1], [unsome(x)])
        if r is None:
            return ABORT
        v, c.pc, c.mem = r
        return some(v) if c.f["n"] == "map" else v
    return c.branch(is_some_any(x), yes, lambda: NONE)


@model("Option::map_or", "Option::is_some_and", "Option::map_or_else")
def m_mapor(c):
    x = c.v(0)
    n = c.f["n"]
    clo = c.args[1] if n == "is_some_and" else c.args[2]

    def yes():
        r = c.callv(clo, [unsome(x)])
        if r is None:
            return ABORT
        v, c.pc, c.mem = r
        return v

    def no():
        if n == "map_or":
            return c.v(1)
        if n == "is_some_and":
            return boolval(FALSE)
        r = c.callv(c.args[1], [])
        if r is None:
            return ABORT
        v, c.pc, c.mem = r
        return v
    return c.branch(is_some_any(x), yes, no)


@model("Option::ok_or")
def m_okor(c):
    x = c.v(0)
    return select(is_some_any(x), ok(unsome(x)), T.struct(RES, "Err", ("0",), [c.v(1)]))


@model("Try::branch")
def m_try(c):
    x = c.v(0)
    CF = "core::ops::control_flow::ControlFlow"
    ty = tyname(c)
    if ty.startswith("core::option"):
        return select(is_some_any(x), T.struct(CF, "Continue", ("0",), [unsome(x)]), T.struct(CF, "Break", ("0",), [NONE]))
    return select(T.is_variant(x, RES, "Ok"), T.struct(CF, "Continue", ("0",), [vproj(x, "Ok", "0")]),
                  T.struct(CF, "Break", ("0",), [T.struct(RES, "Err", ("0",), [vproj(x, "Err", "0")])]))


@model("FromResidual::from_residual")
def m_resid(c):
    return c.v(0)


@model("mem::replace")
def m_replace(c):
    old = c.get(0)
    c.set(0, c.v(1))
    return old


@model("mem::swap")
def m_swap(c):
    a, b = c.get(0), c.get(1)
    c.set(0, b)
    c.set(1, a)
    return UNIT


@model("mem::take")
def m_take(c):
    old = c.get(0)
    c.set(0, mk("const", "default:" + tyname(c)))
    return old


@model("mem::drop")
def m_drop(c):
    ty = tyname(c).split("<")[0]
    d = c.I.drop_types().get(ty)
    if d is not None:
        key = ("T", "drop", c.fr.id, c.bb)
        c.mem[key] = c.args[0]
        r = c.I.inline(d, [mk("ref", key, ())], c.fr, c.bb, c.pc, c.mem, c.line)
        if r is None:
            return ABORT
        _, c.pc, c.mem = r
        c.mem.pop(key, None)
    return UNIT


@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(c):
    return app("discriminant", c.v(0))


@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_fncall(c):
    a = c.args[1]
    args = list(a.args[3:]) if a.op == "struct" else []
    r = c.callv(c.args[0], args)
    if r is None:
        return ABORT
    v, c.pc, c.mem = r
    return v


# ------------------------------------------------------------------ tokens, payments
EGLD = mk("const", "EGLD")
PAYF = ("token_identifier", "token_nonce", "amount")
PAY = "Payment"


@model("EgldOrEsdtTokenIdentifier::egld")
def m_egld(c):
    return EGLD


@model("EgldOrEsdtTokenIdentifier::esdt")
def m_esdt(c):
    return c.v(0)


@model("EgldOrEsdtTokenIdentifier::into_name", "EgldOrEsdtTokenIdentifier::unwrap_esdt", "EgldOrEsdtTokenIdentifier::as_esdt_option",
       "EgldOrEsdtTokenIdentifier::into_esdt_option")
def m_tokname(c):
    x = c.v(0)
    n = c.f["n"]
    if n == "into_name":
        return app("token_name", x)
    cond = bnot(T.eqv(x, EGLD))
    if n == "unwrap_esdt":
        c.event("abort", msg="ESDT expected", cond=bnot(cond))
        c.pc = band(c.pc, cond)
        return x if c.pc is not FALSE else ABORT
    return select(cond, some(x), NONE)


@model("EgldOrEsdtTokenIdentifier::is_egld")
def m_isegld(c):
    return boolval(T.eqv(c.v(0), EGLD))


@model("EgldOrEsdtTokenIdentifier::is_esdt")
def m_isesdt(c):
    return boolval(bnot(T.eqv(c.v(0), EGLD)))


@model("EgldOrEsdtTokenPayment::new", "EsdtTokenPayment::new", "EgldOrEsdtTokenPaymentRefs::new")
def m_paynew(c):
    a = c.vals()
    return T.struct(PAY, None, PAYF, a[:3])


@model("EgldOrEsdtTokenPayment::unwrap_esdt")
def m_payunwrap(c):
    x = c.v(0)
    cond = bnot(T.eqv(proj(x, "token_identifier"), EGLD))
    c.event("abort", msg="ESDT expected", cond=bnot(cond))
    c.pc = band(c.pc, cond)
    return x if c.pc is not FALSE else ABORT


@model("EgldOrEsdtTokenPayment::into_tuple", "EsdtTokenPayment::into_tuple")
def m_paytuple(c):
    x = c.v(0)
    return tup(*[proj(x, f) for f in PAYF])


@model("EgldOrEsdtTokenPayment::egld_payment")
def m_egldpay(c):
    return T.struct(PAY, None, PAYF, [EGLD, INT(0), c.v(0)])


@model("ManagedAddress::zero", "ManagedAddress::default")
def m_zaddr(c):
    return mk("const", "zero_address")


@model("ManagedAddress::is_zero")
def m_iszero(c):
    return boolval(T.eqv(c.v(0), mk("const", "zero_address")))


@model("ManagedBuffer::new")
def m_bufnew(c):
    return BYTES("")


@model("ManagedBuffer::new_from_bytes", "ManagedBufferBuilder::new_from_slice", "ManagedBufferBuilder::into_managed_buffer", "ManagedBuffer::from")
def m_bufbytes(c):
    return c.v(0)


# ------------------------------------------------------------------ cross-contract calls
TXF = ("from", "to", "pay", "data", "rets")
NOPAY = mk("const", "no_payment")


def tx(c, **kw):
    t = c.v(0)
    for k, v in kw.items():
        t = T.with_field(t, k, v)
    return t


@model("ContractBase::tx")
def m_tx(c):
    return mk("struct", "Tx", None, TXF, UNIT, UNIT, NOPAY, UNIT, app("rets"))


@model("Tx::to")
def m_txto(c):
    return tx(c, to=c.v(1))


@model("Tx::typed", "Tx::gas", "Tx::code_metadata", "Tx::original_result", "Tx::original_type", "Tx::with_gas_limit", "Tx::legacy_proxy_call")
def m_txid(c):
    return c.v(0)


@model("Tx::raw_call")
def m_rawcall(c):
    return tx(c, data=app("call", c.v(1)))


@model("Tx::raw_deploy", "Tx::raw_upgrade")
def m_rawdeploy(c):
    return tx(c, data=app(c.f["n"]))


@model("Tx::argument")
def m_txarg(c):
    d = proj(c.v(0), "data")
    return tx(c, data=app(*d.args, c.v(1)))


@model("Tx::arguments_raw")
def m_txargs(c):
    d = proj(c.v(0), "data")
    return tx(c, data=app(*d.args, app("raw_args", c.v(1))))


@model("Tx::from_source")
def m_txsrc(c):
    d = proj(c.v(0), "data")
    return tx(c, data=app(*d.args, app("source", c.v(1))))


@model("Tx::payment", "Tx::esdt", "Tx::single_esdt", "Tx::egld")
def m_txpay(c):
    n = c.f["n"]
    a = c.vals()[1:]
    p = a[0]
    if n == "single_esdt":
        p = T.struct(PAY, None, PAYF, a[:3])
    if n == "egld":
        p = T.struct(PAY, None, PAYF, [EGLD, INT(0), a[0]])
    if p.op == "zst" and p.args[0].endswith("NotPayable"):
        p = NOPAY
    return tx(c, pay=p)


@model("Tx::egld_or_single_esdt")
def m_txpay3(c):
    a = c.vals()
    return tx(c, pay=T.struct(PAY, None, PAYF, a[1:4]))


@model("Tx::returns")
def m_txret(c):
    t = c.v(0)
    r = c.v(1)
    nm = r.args[0] if r.op in ("zst", "const") else r.args[0] if r.op == "struct" else "ret"
    rs = proj(t, "rets")
    return tx(c, rets=app(*rs.args, BYTES(nm.split("<")[0].split("::")[-1])))


REENTRANT = set()


@model("tx_exec_sync::sync_call", "tx_exec_sync::sync_call_readonly", "tx_exec_deploy::sync_call", "tx_exec_upgrade::upgrade_async_call_and_exit",
       "tx_exec_sync::sync_call_fallible", "tx_exec_sync::sync_call_same_context", "tx_exec_te::transfer_execute", "tx_exec_async::async_call_and_exit", "tx_exec_async_promises::register_promise")
def m_sync(c):
    t = c.v(0)
    n = c.f["n"]
    data = proj(t, "data")
    to = proj(t, "to")
    pay = proj(t, "pay")
    site = c.site()
    deploy = "deploy" in c.f["p"] and n == "sync_call"
    name, args = "?", ()
    if data.op == "app":
        if data.args[0] == "call":
            name, args = data.args[1], data.args[2:]
        else:
            name, args = BYTES(data.args[0]), data.args[1:]
    base = mk("callret", name, to, site, *args)
    rets = proj(t, "rets")
    names = [x.args[0] for x in rets.args[1:] if x.op == "bytes"] if rets.op == "app" else []
    e = c.event("call", to=to, endpoint=name.args[0] if isinstance(name, Term) and name.op == "bytes" else name, args=tuple(args), pay=pay,
                readonly=(n == "sync_call_readonly"), mode=n, ret=base, rets=tuple(names), site=site,
                bal=c.mem.get(("E", "balance"), INT(0)))
    bal = mk("after", site, c.mem.get(("E", "balance"), INT(0)))
    if n != "sync_call_readonly":
        c.mem[("E", "balance")] = bal
    dyn = not (isinstance(name, Term) and name.op == "bytes")
    if dyn or (e.endpoint in REENTRANT):
        for k in [k for k in c.mem if k[0] == "S"]:
            del c.mem[k]
        c.mem[("E", "epoch")] = mk("after", site)
    vals = [x for x in names if x in ("ReturnsResult", "ReturnsResultUnmanaged", "ReturnsBackTransfers", "ReturnsBackTransfersReset",
                                      "ReturnsRawResult", "ReturnsNewManagedAddress", "ReturnsResultAs", "ReturnsBackTransfersEGLD",
                                      "ReturnsBackTransfersSingleESDT", "ReturnsBackTransfersMultiESDT")]
    outs = []
    for x in vals:
        if "BackTransfers" in x:
            outs.append(mk("backtransfers", base))
        elif "Address" in x:
            outs.append(mk("newaddr", base))
        else:
            outs.append(base)
    if not outs:
        return UNIT
    return outs[0] if len(outs) == 1 else tup(*outs)


@model("tx_exec_te::transfer", "tx_exec_te::transfer_if_not_empty")
def m_transfer(c):
    t = c.v(0)
    pay = proj(t, "pay")
    c.event("transfer", to=proj(t, "to"), pay=pay, mode=c.f["n"], bal=c.mem.get(("E", "balance"), INT(0)))
    c.mem[("E", "balance")] = mk("after", c.site(), c.mem.get(("E", "balance"), INT(0)))
    return UNIT


# ------------------------------------------------------------------ events
@model("log_util::event_topic_accumulator")
def m_topic(c):
    return app("topics", c.v(0))


@model("log_util::serialize_event_topic")
def m_topic2(c):
    t = c.get(0)
    c.set(0, app(*t.args, c.v(1)) if t.op == "app" else app("topics", t, c.v(1)))
    return UNIT


@model("log_util::serialize_log_data")
def m_logdata(c):
    return c.v(0)


@model("log_util::write_log")
def m_log(c):
    a = c.vals()
    c.event("log", topics=a[0], data=a[1])
    return UNIT


# ------------------------------------------------------------------ pause module
PAUSED = mk("skey", BYTES("pause_module:paused"))
PAUSE_MAPPER = mk("mapper", "SingleValueMapper", PAUSED, SELF,
                  "SingleValueMapper<Api,bool>")


@model("PauseModule::require_not_paused")
def m_reqnp(c):
    cond = bnot(truth(load(c, PAUSE_MAPPER)))
    c.event("abort", msg="Contract is paused", cond=bnot(cond))
    c.pc = band(c.pc, cond)
    return UNIT if c.pc is not FALSE else ABORT


@model("PauseModule::require_paused")
def m_reqp(c):
    cond = truth(load(c, PAUSE_MAPPER))
    c.event("abort", msg="Contract is not paused", cond=bnot(cond))
    c.pc = band(c.pc, cond)
    return UNIT if c.pc is not FALSE else ABORT


@model("PauseModule::not_paused")
def m_np(c):
    return boolval(bnot(truth(load(c, PAUSE_MAPPER))))


@model("PauseModule::is_paused", "PauseModule::paused_status")
def m_ip(c):
    return load(c, PAUSE_MAPPER)


@model("PauseModule::set_paused")
def m_setp(c):
    store(c, PAUSE_MAPPER, c.v(1))
    return UNIT


@model("PauseModule::pause_endpoint")
def m_pe(c):
    store(c, PAUSE_MAPPER, boolval(TRUE))
    return UNIT


@model("PauseModule::unpause_endpoint")
def m_upe(c):
    store(c, PAUSE_MAPPER, boolval(FALSE))
    return UNIT


# loops that walk a vector by index
def _hook(c0, d):
    """len(v) - ind(l) + c > 0  is 'the walk over v is not finished'"""
    if c0 == 0 and len(d) == 2:
        pos = [t for t, k in d.items() if k == 1]
        neg = [t for t, k in d.items() if k == -1]
        if len(pos) == 1 and len(neg) == 1 and neg[0].op == "ind" and pos[0].op == "app" and pos[0].args[0] == "len":
            v = pos[0].args[1]
            return T.atom("hasnext", base_coll(v), neg[0].args[0])
    return None


T.GT0_HOOKS.append(_hook)
