"""The price aggregator: who submits, when a round closes, what is published."""
from lib import *
from . import rule
import terms as T
import models as M
from interp import divint, remint

AG = "price_aggregator"
WINDOW, ROUND = 30, 1800
STATE = ["oracle_status", "submissions", "first_submission_timestamp", "last_submission_timestamp", "rounds", "submission_count", "pause_module:paused"]
PAUSED = T.truth(load("pause_module:paused"))
ORACLES, COUNT = load("oracle_status"), load("submission_count")
NOW, CALLER = env("now"), env("caller")


def ep(R, W, n):
    r = R.use(W.ep(AG, n))
    R.ob("completes", n, r.ok and r.pc is not FALSE, "the entry point can never succeed", r.where())
    return r


def empty(x):
    return T.truth(app("isempty", x))


def size(m):
    return M.vlen(m)


def within(a, b):
    """a <= b"""
    return bnot(T.lt(b, a))


class Step:
    """one submission: what is given, the state it finds and the state it leaves"""

    def __init__(self, r, item, lid=None):
        self.r, self.lid = r, lid
        self.frm, self.to, self.ts, self.price = item
        self.pc = r.pc if lid is None else r.I.loops[lid][4]
        self.round = skey("rounds", self.frm, self.to)
        self.pair = next((k.args[1] for k in self.keys("submissions") if len(k.args) > 1 and all(
            same(self.pc, proj(k.args[1], f), x) for f, x in (("from", self.frm), ("to", self.to)))), mk("const", "no pair"))

    def keys(self, base):
        return [e.key for e in self.r.of("store", "sload") if keybase(e.key) == base]

    def info(self, key):
        name = mk("key", "S", key, SELF)
        return sorted(((p, v) for (l, k, p), v in self.r.I.loopinfo.items() if l is self.lid and k is name), key=lambda x: x[0])

    def pre(self, base, *args):
        key = skey(base, *args)
        x = mk("sload", key, SELF)
        for p, _ in self.info(key) if self.lid else ():
            v = mk("lv", self.lid, mk("key", "S", key, SELF), p)
            x = v if not p else T.with_field(x, p[0], v)
        return x

    def post(self, base, *args):
        key = skey(base, *args)
        if not self.lid:
            return self.r.final(base, *args)
        x = mk("sload", key, SELF)
        for p, v in self.info(key):
            x = v[1] if not p else T.with_field(x, p[0], v[1])
        return x


def steps(R, W):
    r = ep(R, W, "submit")
    yield "submit", Step(r, [arg(i) for i in range(4)])
    r = ep(R, W, "submitBatch")
    lids = [lid for lid, l in r.I.loops.items() if l[0] is arg(0)]
    R.ob("every-submission", "submitBatch", len(lids) == 1, f"{len(lids)} passes over the submissions", r.where())
    for lid in lids[:1]:
        R.ob("every-submission", "submitBatch/all", r.I.loops[lid][2] is FALSE, "the pass over the submissions may stop early", r.where())
        e = mk("elem", arg(0), lid)
        yield "submitBatch", Step(r, [proj(e, str(i)) for i in range(4)], lid)


class Rules:
    """what the documentation makes of one submission"""

    def __init__(self, s):
        subs, first = s.pre("submissions", s.pair), s.pre("first_submission_timestamp", s.pair)
        none = T.eqnum(size(subs), INT(0))
        has = M.is_some(M.mget(subs, CALLER))
        self.sane = bnot(band(none, has))       # an empty list holds nobody
        self.late = band(bnot(none), T.lt(T.add(first, INT(ROUND)), NOW))
        self.fresh = bor(none, self.late)
        self.base = select(self.late, M.CLEARED, subs)
        self.begun = select(self.fresh, NOW, first)
        self.twice = band(bnot(self.late), has)
        self.taken = band(bnot(self.twice), within(self.begun, NOW))
        self.list = T.gmap(self.base, lambda m: app("minsert", m, CALLER, s.price))
        self.number = T.add(select(self.late, INT(0), size(subs)), INT(1))
        self.closes = band(self.taken, within(s.pre("submission_count"), self.number))
        self.id = select(empty(s.pre("rounds", s.frm, s.to)), INT(0), T.add(proj(s.pre("rounds", s.frm, s.to), "round"), INT(1)))


def median(m, n):
    """the middle of the submitted prices in order, or the mean of the two middle ones"""
    ks = app("keys", m)
    prices = app("mapped", ks, M.unsome(M.mget(m, mk("elem", ks, mk("bnd", 1)))))
    s = app("sorted", prices)
    h = divint(n, INT(2))
    pick = lambda i: app("vget", s, i)
    return select(T.lt(INT(0), remint(n, INT(2))), pick(h), divint(T.add(pick(T.sub(h, INT(1))), pick(h)), INT(2)))


@rule("A01", "Both submission entry points succeed only when the contract runs, the caller is on the oracle list and every submission's timestamp "
      "is neither in the future nor older than 30 seconds.")
def a01(W, R):
    k = 0
    for n, s in steps(R, W):
        k += 1
        r = s.r
        R.imp("running", n, r.pc, bnot(PAUSED), "the contract is not paused", r.where())
        R.imp("oracle", n, r.pc, M.is_some(M.mget(ORACLES, CALLER)), "the caller is a registered oracle", r.where())
        R.imp("future", n, s.pc, within(s.ts, NOW), "the timestamp is not in the future", r.where())
        R.imp("recent", n, s.pc, within(T.sub(NOW, s.ts), INT(WINDOW)), "the timestamp is at most 30 seconds old", r.where())
        for e in r.stores():
            R.imp("guarded", f"{n}/{keybase(e.key)}", e.pc, band(bnot(PAUSED), M.is_some(M.mget(ORACLES, CALLER))), "nothing is written for others", e.at())
    for n in W.all_eps(AG):
        r = R.use(W.ep(AG, n))
        for b in ("submissions", "rounds", "first_submission_timestamp", "last_submission_timestamp"):
            R.ob("writers", f"{n}/{b}", n in ("submit", "submitBatch") or not r.stores(b), "writes what only submissions may", r.where())
        R.ob("silent", n, not r.of("transfer", "call", "burn", "mint", "sendop", "upgrade"), "moves tokens or calls out", r.where())
    R.floor("submission entry points", k, 2)


@rule("A02", "Per submission, the open round's list of prices and its two timestamps afterwards equal the documented ones: one price per oracle, "
      "a round over 30 minutes old is dropped first, a second price of the same oracle changes nothing.")
def a02(W, R):
    k = 0
    for n, s in steps(R, W):
        k += 1
        q, at = Rules(s), s.r.where()
        pc = band(s.pc, q.sane)
        after = s.post("submissions", s.pair)
        for what, c, want in (("closed", q.closes, M.CLEARED), ("kept", band(q.taken, bnot(q.closes)), q.list), ("repeated", bnot(q.taken), q.base)):
            R.eq("list", f"{n}/{what}", band(pc, c), after, want, at)
        for b, other in (("first_submission_timestamp", q.begun),
                         ("last_submission_timestamp", select(bor(q.taken, q.late), NOW, s.pre("last_submission_timestamp", s.pair)))):
            R.eq(b, n + "/closed", band(pc, q.closes), s.post(b, s.pair), INT(0), at)
            R.eq(b, n + "/open", band(pc, bnot(q.closes)), s.post(b, s.pair), other, at)
        # other pairs and other entries are left alone
        for e in s.r.stores():
            b = keybase(e.key)
            own = {"submissions": (s.pair,), "first_submission_timestamp": (s.pair,), "last_submission_timestamp": (s.pair,), "rounds": (s.frm, s.to),
                   "oracle_status": ()}.get(b)
            ok = own is not None and (tuple(e.key.args[1:]) == own or b == "submissions" and e.d.get("op") == "entry" and e.mkey is s.pair)
            R.ob("own-entries", f"{n}/{b}", ok, "writes another entry", e.at())
    R.floor("submission entry points", k, 2)


@rule("A03", "A price is published exactly when a submission brings the round to the required count: the price is the median of the prices in the "
      "round, stamped with the block time and the next round number; at most 50 prices count.")
def a03(W, R):
    k = 0
    for n, s in steps(R, W):
        k += 1
        q, at = Rules(s), s.r.where()
        pc = band(s.pc, q.sane)
        was, now = s.pre("rounds", s.frm, s.to), s.post("rounds", s.frm, s.to)
        for f in ("price", "timestamp", "round"):
            R.eq("unpublished", f"{n}/{f}", band(pc, bnot(q.closes)), proj(now, f), proj(was, f), at)
        c = band(pc, q.closes)
        R.imp("published-when", n, c, within(q.number, INT(50)), "at most 50 prices count", at)
        for cc in (band(c, q.late), band(c, bnot(q.late))):
            R.eq("median", n, cc, proj(now, "price"), median(T.reduce_hook(q.list, cc), q.number), at)
        R.eq("published", n + "/timestamp", c, proj(now, "timestamp"), NOW, at)
        R.eq("published", n + "/round", c, proj(now, "round"), q.id, at)
    R.floor("submission entry points", k, 2)


@rule("A04", "Every place that sets the required number of submissions, and every removal of oracles, leaves it between 1 and the smaller of 50 and "
      "the number of registered oracles; only the owner changes oracles or the count, oracles named are added or removed and others keep their record.")
def a04(W, R):
    k = 0
    for n in W.all_eps(AG):
        r = R.use(W.ep(AG, n))
        for s in r.stores("submission_count"):
            k += 1
            c = s.value
            R.imp("count", n, r.pc, s.pc, "the count is set on every success", s.at())
            here = r.final("oracle_status")
            R.imp("count", n + "/least", s.pc, within(INT(1), c), "at least one submission", s.at())
            R.imp("count", n + "/most", s.pc, within(c, INT(50)), "at most 50 submissions", s.at())
            R.imp("count", n + "/oracles", s.pc, within(c, size(here)), "no more than there are oracles", s.at())
            R.ob("count", n + "/given", c is arg(0), "another count than the one given", s.at())
        if n not in ("init", "upgrade", "submit", "submitBatch"):
            for s in r.stores():
                R.imp("owner", f"{n}/{keybase(s.key)}", s.pc, T.eqv(CALLER, env("owner")), "the caller is the owner", s.at())
        if r.stores("oracle_status"):
            R.ob("oracle-writers", n, n in ("init", "addOracles", "removeOracles", "submit", "submitBatch"), "changes the list of oracles", r.where())
        if n == "removeOracles":
            R.ob("recount", n, r.stores("submission_count"), "oracles leave without the count being checked", r.where())
    R.floor("settings of the count", k, 3)
    for n, op, at_ in (("init", "insert", 1), ("addOracles", "insert", 0), ("removeOracles", "remove", 1)):
        r = ep(R, W, n)
        st = r.stores("oracle_status")
        R.ob("oracle-list", n, len(st) == 1, f"{len(st)} changes of the list", r.where())
        for s in st[:1]:
            lids = [l for l in s.loops if r.I.loops[l][0] is arg(at_)]
            R.ob("oracle-list", n + "/each", len(s.loops) == 1 and lids, "not once for each oracle given", s.at())
            for lid in lids[:1]:
                x = mk("elem", arg(at_), lid)
                R.ob("oracle-list", n + "/all", r.I.loops[lid][2] is FALSE, "the pass over the oracles may stop early", s.at())
                R.ob("oracle-list", n + "/op", s.d.get("op") == op and s.mkey is x, "not that oracle", s.at())
                old = mk("lv", lid, mk("key", "S", skey("oracle_status"), SELF), ())
                known = M.is_some(M.mget(old, x))
                if op == "insert":
                    R.imp("oracle-list", n + "/new", s.pc, bnot(known), "a registered oracle keeps its record", s.at())
                    R.imp("oracle-list", n + "/added", r.I.loops[lid][4], bor(known, s.pc), "every oracle given is registered", s.at())
                    for f in ("accepted_submissions", "total_submissions"):
                        R.eq("oracle-list", f"{n}/{f}", s.pc, proj(s.mval, f), INT(0), s.at())
                else:
                    R.imp("oracle-list", n + "/removed", r.I.loops[lid][4], bor(bnot(known), s.pc), "every oracle given is removed", s.at())


@rule("A05", "Deployment and upgrade leave the contract paused; the price views answer only while it runs and return exactly the stored round of the "
      "pair asked for, skipping (or refusing) pairs without one.")
def a05(W, R):
    for n in ("init", "upgrade"):
        r = ep(R, W, n)
        R.imp("paused", n, r.pc, T.truth(r.final("pause_module:paused")), "the contract is left paused", r.where())
    for n in W.all_eps(AG):
        if n not in ("init", "upgrade"):
            R.ob("pause-writers", n, not W.ep(AG, n).stores("pause_module:paused"), "changes the pause state", W.ep(AG, n).where())
    r = ep(R, W, "latestPriceFeed")
    rec = load("rounds", arg(0), arg(1))
    R.imp("running", "latestPriceFeed", r.pc, bnot(PAUSED), "the contract is not paused", r.where())
    R.imp("known", "latestPriceFeed", r.pc, bnot(empty(rec)), "a price is on record", r.where())
    shows(R, "latestPriceFeed", r.pc, r.result(), rec, arg(0), arg(1), r.where())
    r = ep(R, W, "latestRoundData")
    R.imp("running", "latestRoundData", r.pc, bnot(PAUSED), "the contract is not paused", r.where())
    v = r.result()
    ok = v.op == "app" and v.args[0] == "filtered" and v.args[1] is arg(0)
    R.ob("each-pair", "latestRoundData", ok, "not one entry per pair with a price", r.where())
    if ok:
        lid = next((x for x in T.subterms(v.args[2]) if x.op == "bnd"), mk("bnd", 1))
        p = mk("elem", arg(0), lid)
        rec = load("rounds", proj(p, "from"), proj(p, "to"))
        R.imp("each-pair", "latestRoundData/when", r.pc, T.biff(T.truth(v.args[3]), bnot(empty(rec))), "exactly the pairs with a price", r.where())
        shows(R, "latestRoundData", band(r.pc, T.truth(v.args[3])), v.args[2], rec, proj(p, "from"), proj(p, "to"), r.where())
    r = ep(R, W, "getOracles")
    R.ob("oracles", "getOracles", r.result() is app("keys", ORACLES), "not the registered oracles", r.where())
    for n in ("latestPriceFeed", "latestRoundData", "getOracles", "submission_count"):
        R.ob("pure", n, not W.ep(AG, n).stores(), "a view that writes", W.ep(AG, n).where())


def shows(R, n, pc, x, rec, frm, to, at):
    for f, want in (("round_id", proj(rec, "round")), ("timestamp", proj(rec, "timestamp")), ("price", proj(rec, "price")), ("from", frm), ("to", to)):
        R.eq("shown", f"{n}/{f}", pc, proj(x, f), want, at)


@rule("A06", "Every submission adds one to the caller's total, and one to its accepted count exactly when its price was taken; what was taken, "
      "refused, dropped and published is announced as such.")
def a06(W, R):
    k = 0
    for n, s in steps(R, W):
        q, at = Rules(s), s.r.where()
        pc = band(s.pc, q.sane)
        old, new = s.pre("oracle_status"), s.post("oracle_status")
        was, now = M.unsome(M.mget(old, CALLER)), M.mget(new, CALLER)
        known = band(pc, M.is_some(M.mget(old, CALLER)))
        R.imp("counted", n, known, M.is_some(now), "the oracle stays registered", at)
        R.eq("counted", n + "/total", known, proj(M.unsome(now), "total_submissions"), T.add(proj(was, "total_submissions"), INT(1)), at)
        for c, d in ((q.taken, 1), (bnot(q.taken), 0)):
            R.eq("counted", f"{n}/accepted{d}", band(known, c), proj(M.unsome(now), "accepted_submissions"), T.add(proj(was, "accepted_submissions"), INT(d)), at)
        for e in s.r.stores("oracle_status"):
            R.ob("counted", n + "/own", e.mkey is CALLER, "another oracle's record", e.at())
        head = [s.frm, s.to, q.id]
        for name, c, tail in (("add_submission", q.taken, [s.price]), ("discard_submission", bnot(q.taken), None), ("discard_round", q.late, []), ("new_round", q.closes, None)):
            logs = [(e, topics(e)[1]) for e in s.r.of("log") if topics(e)[0] == name]
            k += len(logs)
            told = FALSE
            for e, t in logs:
                R.imp("announced", f"{n}/{name}/truly", band(e.pc, q.sane), c, "announced only when so", e.at())
                told = bor(told, e.pc)
                for i, (x, y) in enumerate(zip(t, head + (tail or []))):
                    R.eq("announced", f"{n}/{name}/{i}", band(e.pc, q.sane), x, y, e.at())
                if name == "new_round":
                    for f, y in (("timestamp", NOW), ("price", proj(s.post("rounds", s.frm, s.to), "price")), ("block", env("block_nonce")), ("epoch", env("block_epoch"))):
                        R.eq("announced", f"{n}/{name}/{f}", band(e.pc, pc), proj(t[3], f), y, e.at())
                if name == "discard_submission":
                    R.imp("announced", f"{n}/{name}/twice", band(e.pc, pc), T.biff(T.truth(proj(t[3], "has_caller_already_submitted")), q.twice), "the reason given", e.at())
            R.imp("announced", f"{n}/{name}/always", band(pc, c), told, "announced whenever so", at)
    R.floor("announcements", k, 8)
