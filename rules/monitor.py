"""Monitors: what is recorded, and what the statistics say about it.

The recorded values, times and weights are lists of 0..3 symbolic elements in the abstract heap; whether a value is off,
zero or something else is split up in advance. Every operation is followed on all paths and the final lists, or the
formula that is returned (as a quotient of polynomials), are compared with the documented meaning.
"""
import itertools
import ast
from lib.core import *
from lib.engine import and_facts
from lib.ratio import same
from . import prop
from .resource import A

OFF = A(SELF, "off")
MON = A(SELF, "_monitor")
VAL, WGT, FLAG = (mk("sym", "arg:" + n) for n in ("value", "weight", "monitor"))
LISTS = ("_x", "_t", "_weight")
STATS = ("n", "sumw", "mun", "sn", "_minimum", "_maximum")


def X(i):
    return mk("sym", f"x{i}")


def Tm(i):
    return mk("sym", f"t{i}")


def W(i):
    return mk("sym", f"w{i}")


def L(name):
    return mk("new", "list", "the " + name)


NUMBER = ("Number",)


def number(t):
    return mk("cmp", "isinst", t, NUMBER)


CACHE = mk("new", "dict", "cache")


class World:
    """a monitor with k recorded values"""

    def __init__(self, level, k, weights=False, stats_only=False, monitor=None, cached=False, animate=False, generated=FALSE, split=True):
        self.level, self.k, self.weights, self.stats_only, self.monitor = level, k, weights, stats_only, monitor
        self.cached, self.animate, self.generated, self.split = cached, animate, generated, split
        self.T = A(ENV, "_t") if animate else NOW

    def __str__(self):
        return ("level" if self.level else "non level") + (", stats_only" if self.stats_only else f", {self.k} recorded") + (", weighted" if self.weights else "") + ("" if self.monitor is None else ", on" if self.monitor else ", off") + (", animated" if self.animate else "")

    def w(self, i):
        if self.level:
            return tm.sub(Tm(i + 1) if i + 1 < self.k else self.T, Tm(i))
        return W(i) if self.weights else const(1)

    def pre(self, numeric=(), facts=()):
        def f(eng, st):
            h = st.heap
            st.uniq = 100
            h[(SELF, "_level")] = TRUE if self.level else FALSE
            h[(SELF, "_stats_only")] = TRUE if self.stats_only else FALSE
            h[(SELF, "isgenerated")] = self.generated
            h[(ENV, "_animate")] = TRUE if self.animate else FALSE
            if self.monitor is not None:
                h[(SELF, "_monitor")] = TRUE if self.monitor else FALSE
            h[(SELF, "cached_xweight")] = CACHE
            h[(CACHE, "#items")] = mk("list")
            if self.cached:
                ks = []
                for ex0 in (FALSE, TRUE):
                    for fn in (FALSE, TRUE):
                        key = mk("tuple", ex0, fn)
                        ks.append(key)
                        h[(CACHE, ("[]", key))] = cache_entry(ex0, fn)
                        cx, cw = cache_pair(ex0, fn)
                        h[(cx, "#items")] = mk("list", *cache_x(ex0, fn))
                        h[(cw, "#items")] = mk("list", *cache_w(ex0, fn))
                h[(CACHE, "#items")] = mk("list", *ks)
            if self.stats_only:
                for a in STATS:
                    h[(SELF, a)] = L(a)
                    h[(L(a), "#items")] = mk("list", mk("sym", a + "0"), mk("sym", a + "1"))
                h[(SELF, "_weight")] = A(SELF, "_weight")
            else:
                for a, g in (("_x", X), ("_t", Tm)):
                    h[(SELF, a)] = L(a)
                    h[(L(a), "#items")] = mk("list", *(g(i) for i in range(self.k)))
                h[(SELF, "_weight")] = TRUE if self.level else FALSE
                if self.weights:
                    h[(SELF, "_weight")] = L("_weight")
                    h[(L("_weight"), "#items")] = mk("list", *(W(i) for i in range(self.k)))
            fs = [(number(t), True) for t in list(numeric) + [X(i) for i in range(self.k)]]
            fs.append((cmp_eq(NOW, INF), False))
            if not self.stats_only:
                for i in range(self.k):
                    fs.append((cmp_lt(Tm(i), Tm(i + 1) if i + 1 < self.k else NOW, i + 1 < self.k or self.monitor is None and not self.level), True)) if self.level else None
                    if self.level and i + 1 == self.k:
                        fs.append((cmp_lt(self.T, Tm(i)), False))
            outs = [st]
            for a, v in fs + list(facts):
                outs = [y for x in outs for y in assume(x, a, v)]
            if self.split and not self.stats_only:
                for i in range(self.k):
                    nx = []
                    for x in outs:
                        if self.level:
                            nx += [z for y in assume(x, cmp_eq(X(i), OFF), True) for z in assume(y, cmp_eq(X(i), const(0)), False)]
                        for zero in (True, False):
                            nx += [z for y in assume(x, cmp_eq(X(i), OFF), False) for z in assume(y, cmp_eq(X(i), const(0)), zero)]
                    outs = nx
            return outs

        return f


def cache_pair(ex0, fn):
    return mk("new", "list", ("cx", ex0, fn)), mk("new", "list", ("cw", ex0, fn))


def cache_x(ex0, fn):
    return [mk("sym", f"cx{ex0.a[1]}{fn.a[1]}")]


def cache_w(ex0, fn):
    return [mk("sym", f"cw{ex0.a[1]}{fn.a[1]}")]


def cache_t(ex0, fn):
    return mk("sym", f"ct{ex0.a[1]}{fn.a[1]}")


def cache_entry(ex0, fn):
    return mk("tuple", cache_t(ex0, fn), mk("tuple", *cache_pair(ex0, fn)))


def lst(p, attr, base=SELF):
    """contents at the end of the path: tuple of terms, or None when not known"""
    t = p.heap.get((base, attr))
    if t is None:
        return None
    if t.op in ("list", "tuple"):
        return t.a
    r = p.heap.get((t, "#items"))
    return None if r is None else r.a


def weights(p, n, base=SELF):
    """effective weights: not stored when they are all 1"""
    t = p.heap.get((base, "_weight"))
    if t is FALSE or t is NONE:
        return tuple(const(1) for _ in range(n))
    w = lst(p, "_weight", base)
    if w == ():
        return tuple(const(1) for _ in range(n))
    return w


def eqw(p, a, b):
    """equal weights on this path"""
    if a is None or b is None or len(a) != len(b):
        return False
    return all(x is y or implied(p.facts, cmp_eq(x, y)) is True for x, y in zip(a, b))


def at_end(p, w, attr):
    return p.heap.get((SELF, attr), A(SELF, attr))


def cache_used(ctx):
    return any("cached_xweight" == n.attr for f in ctx.m.classes["Monitor"].methods.values() for n in ast.walk(f.node) if isinstance(n, ast.Attribute))


def cache_written(ctx, p, w, api, label, ex0, fn, where):
    """what a query leaves in the cache is filed under that very query"""
    ks = [e.args[0] for e in p.events if e.kind == "setitem" and e.base is CACHE and e.args]
    if not ks:
        return
    ctx.count("results cached")
    want = mk("tuple", ex0, fn)
    bad = [k for k in ks if k.op == "tuple" and len(k.a) == 2 and all(z in (TRUE, FALSE) for z in k.a) and k is not want]
    ctx.check(not bad, "cache-key", api, f"({label}) stores its result as the answer to another question: (ex0, force_numeric) = {bad!r} instead of {want!r}", where, pathstr(p))


def unchanged(p, w, stats=True):
    x, t = lst(p, "_x"), lst(p, "_t")
    if w.stats_only:
        return all(lst(p, a) == (mk("sym", a + "0"), mk("sym", a + "1")) for a in STATS)
    return x == tuple(X(i) for i in range(w.k)) and t == tuple(Tm(i) for i in range(w.k)) and (w.level or eqw(p, weights(p, w.k), tuple(w.w(i) for i in range(w.k))))


def recorded(ctx, p, w, api, v, wt, where):
    """(v, wt) is added to the record at the current time"""
    ps = pathstr(p)
    x, t = lst(p, "_x"), lst(p, "_t")
    k = w.k
    xs, ts = tuple(X(i) for i in range(k)), tuple(Tm(i) for i in range(k))
    if w.level:
        same_t = implied(p.facts, cmp_eq(Tm(k - 1), NOW))
        if same_t is True:
            ctx.check(x == xs[:-1] + (v,) and t in (ts, ts[:-1] + (NOW,)), "level-replaces-at-same-time", api, f"({w}) a value tallied at the time of the last one leads to values {x!r} at {t!r}", where, ps)
        elif same_t is False:
            ctx.check(x == xs + (v,) and t == ts + (NOW,), "level-appends", api, f"({w}) a value tallied later leads to values {x!r} at {t!r}", where, ps)
        else:
            ctx.fail("level-appends", api, f"({w}) the time of the last value is not compared with now; values {x!r} at {t!r}", where, ps)
    else:
        ctx.check(x == xs + (v,), "value-recorded", api, f"({w}) values are {x!r}", where, ps)
        ctx.check(t == ts + (NOW,), "time-recorded", api, f"({w}) times are {t!r}", where, ps)
        ws = tuple(w.w(i) for i in range(k)) + (wt,)
        got = weights(p, k + 1)
        ctx.check(eqw(p, got, ws), "weight-recorded", api, f"({w}) weights are {got!r}, {ws!r} required", where, ps)


def accumulated(ctx, p, w, api, v, wt, where):
    """the running statistics of a stats_only monitor have v with weight wt added"""
    ps = pathstr(p)
    zero = implied(p.facts, cmp_eq(wt, const(0)))
    if tm.is_num_const(wt):
        zero = tm.num_value(wt) == 0
    vz = implied(p.facts, truth(v))
    if vz is None:
        z = implied(p.facts, cmp_eq(v, const(0)))
        vz = None if z is None else not z
    if zero is None:
        ctx.fail("weight-zero", api, f"({w}) a value is added without testing for a zero weight", where, ps)
        return
    if zero:
        ctx.check(unchanged(p, w), "weight-zero", api, f"({w}) a value without duration changes the statistics", where, ps)
        return
    if vz is None:
        ctx.fail("ex0-statistics", api, f"({w}) not determined whether the value is zero", where, ps)
        return
    for e in (0, 1):
        old = {a: mk("sym", a + str(e)) for a in STATS}
        new = {a: (lst(p, a) or (None, None))[e] for a in STATS}
        which = "statistics excluding zero" if e else "statistics"
        if e and not vz:
            ctx.check(all(new[a] is old[a] for a in STATS), "ex0-statistics", api, f"({w}) a zero changes the {which}", where, ps)
            continue
        if not ctx.check(None not in new.values(), "running-statistics", api, f"({w}) {which} not known", where, ps):
            return
        ctx.check(new["n"] is tm.add(old["n"], const(1)), "running-n", api, f"({w}) {which}: number of entries becomes {new['n']!r}", where, ps)
        s = tm.add(old["sumw"], wt)
        ctx.check(same(new["sumw"], s), "running-weight", api, f"({w}) {which}: total weight becomes {new['sumw']!r}", where, ps)
        mean = tm.div(tm.add(tm.mul(old["mun"], old["sumw"]), tm.mul(wt, v)), s)
        ctx.check(same(new["mun"], mean), "running-mean", api, f"({w}) {which}: mean becomes {new['mun']!r}", where, ps)
        sq = tm.add(old["sn"], tm.mul(wt, tm.mul(tm.sub(v, old["mun"]), tm.sub(v, mean))))
        ctx.check(same(new["sn"], sq), "running-squares", api, f"({w}) {which}: sum of squares becomes {new['sn']!r}", where, ps)
        for a, lo in (("_minimum", True), ("_maximum", False)):
            o, n = old[a], new[a]
            ok = n in (o, v) and (n is o or (ge(p.facts, o, v) if lo else ge(p.facts, v, o))) and (n is v or (ge(p.facts, v, o) if lo else ge(p.facts, o, v)))
            ctx.check(ok, "running-extremes", api, f"({w}) {which}: {a[1:]} becomes {n!r}", where, ps)


def handlers(ctx):
    def typecode(eng, st, recv, b, node, fi):
        return [(st, mk("tuple", A(SELF, "xtypecode"), OFF))]

    def env(eng, st, recv, b, node, fi):
        return [(st, ENV)]

    return {"_set_env": env, "type_to_typecode_off": typecode, "_set_name": h_skip, "_check_overlapping_parameters": h_skip, "Monitor.setup": h_skip}


def run(ctx, api, w, args=None, key="", cls="Monitor", extra=None, **kw):
    fi = ctx.m.need(api)
    # only for numeric types or type any: xtypecode is a string that can be empty
    return fi, ctx.paths(fi, key=f"mon{w}{w.generated}{w.split}{key}", args=args, cls=cls, pre=w.pre(**kw), handlers={**handlers(ctx), **(extra or {})}, max_depth=9, assume={"_animate": None})


def c21_tally(ctx):
    used = cache_used(ctx)
    ks = (1, 2) if ctx.tier == "quick" else (1, 2, 3)
    api = "Monitor.tally"
    num = dict(numeric=(VAL, A(SELF, "_tally")))
    for level, k, weights_, on in [(True, k, False, o) for k in ks for o in (True, False)] + [(False, k, wt, o) for k in (0,) + ks for wt in (False, True) for o in (True, False) if k or not wt]:
        w = World(level, k, weights=weights_, monitor=on, cached=True, split=False)
        fi, ps = run(ctx, api, w, **num)
        where = ctx.where(fi)
        for p in ps:
            bad_w = level and implied(p.facts, cmp_eq(WGT, const(1))) is False
            bad_v = level and implied(p.facts, cmp_eq(VAL, OFF)) is True
            if p.raised:
                ctx.count("refused tallies")
                ctx.check((bad_w or bad_v) and p.outcome[1].name == "ValueError", "tally-refused", api, f"({w}) a tally fails with {p.outcome[1].name}", where, pathstr(p))
                ctx.check(unchanged(p, w) and at_end(p, w, "_tally") is A(SELF, "_tally"), "refused-changes-nothing", api, f"({w}) a tally that fails changes the monitor", where, pathstr(p))
                continue
            ctx.count("tallies")
            ctx.check(not bad_w and not bad_v and (not level or implied(p.facts, cmp_eq(WGT, const(1))) is True), "tally-refused", api, f"({w}) a level monitor accepts a weight or the value off", where, pathstr(p))
            if level:
                ctx.check(at_end(p, w, "_tally") is VAL and at_end(p, w, "_ttally") is NOW, "current-value", api, f"({w}) after a tally the current value is {at_end(p, w, '_tally')!r} since {at_end(p, w, '_ttally')!r}", where, pathstr(p))
            if on:
                recorded(ctx, p, w, api, VAL, WGT, where)
                if used:
                    ctx.check(lst(p, "cached_xweight") == (), "cache-invalidated", api, f"({w}) statistics computed before the tally are used afterwards", where, pathstr(p))
            else:
                ctx.check(unchanged(p, w), "off-records-nothing", api, f"({w}) a monitor that is off records the value", where, pathstr(p))
    for level, on in itertools.product((True, False), repeat=2):
        w = World(level, 0, stats_only=True, monitor=on)
        fi, ps = run(ctx, api, w, **num)
        where = ctx.where(fi)
        for p in ps:
            bad_w = level and implied(p.facts, cmp_eq(WGT, const(1))) is False
            if p.raised:
                ctx.check(bad_w and p.outcome[1].name == "ValueError" and unchanged(p, w), "tally-refused", api, f"({w}) a tally fails with {p.outcome[1].name}", where, pathstr(p))
                continue
            ctx.count("tallies")
            ctx.check(not bad_w, "tally-refused", api, f"({w}) a level monitor accepts a weight", where, pathstr(p))
            if level:
                ctx.check(at_end(p, w, "_tally") is VAL and at_end(p, w, "_ttally") is NOW, "current-value", api, f"({w}) after a tally the current value is {at_end(p, w, '_tally')!r} since {at_end(p, w, '_ttally')!r}", where, pathstr(p))
            if not on:
                ctx.check(unchanged(p, w), "off-records-nothing", api, f"({w}) a monitor that is off changes its statistics", where, pathstr(p))
                continue
            if level:
                ctx.check(at_end(p, w, "_ttally_monitored") is NOW, "accounted-until-now", api, f"({w}) the time until now is not marked as accounted for", where, pathstr(p))
                accumulated(ctx, p, w, api, A(SELF, "_tally"), tm.sub(NOW, A(SELF, "_ttally_monitored")), where)
            else:
                accumulated(ctx, p, w, api, VAL, WGT, where)
    for level, so in itertools.product((True, False), repeat=2):
        w = World(level, 1, stats_only=so, monitor=False, generated=TRUE, split=False)
        for api2, args in (("Monitor.tally", None), ("Monitor.reset", None), ("Monitor.monitor", {"value": TRUE})):
            if so and api2 == "Monitor.monitor":
                continue
            fi, ps = run(ctx, api2, w, args=args, **num)
            for p in ps:
                ctx.count("calls on derived monitors")
                ctx.check(p.raised and p.outcome[1].name == "TypeError" and unchanged(p, w), "derived-is-fixed", api2, f"({w}) a monitor derived from another one can be changed", ctx.where(fi), pathstr(p))


def c21_switch(ctx):
    """monitor(on/off), reset, __init__"""
    used = cache_used(ctx)
    ks = (1, 2) if ctx.tier == "quick" else (1, 2, 3)
    num = dict(numeric=(VAL, A(SELF, "_tally")))
    api = "Monitor.monitor"
    cur = A(SELF, "_tally")
    notoff = [(cmp_eq(cur, OFF), False)]
    for k, on, to in itertools.product(ks, (True, False), (TRUE, FALSE, NONE)):
        w = World(True, k, monitor=on, cached=True, split=False)
        fi, ps = run(ctx, api, w, args={"value": to}, key=repr(to), facts=notoff, **num)
        where = ctx.where(fi)
        for p in ps:
            ctx.count("switches")
            if p.raised:
                ctx.fail("switch", api, f"({w}) monitor({to!r}) fails", where, pathstr(p))
                continue
            want = (TRUE if on else FALSE) if to is NONE else to
            ctx.check(at_end(p, w, "_monitor") is want and p.outcome[1] is want, "switch", api, f"({w}) monitor({to!r}) leaves the monitor {at_end(p, w, '_monitor')!r} and reports {p.outcome[1]!r}", where, pathstr(p))
            ctx.check(at_end(p, w, "_tally") is cur, "switch-keeps-value", api, f"({w}) monitor({to!r}) changes the current value", where, pathstr(p))
            if to is NONE:
                ctx.check(unchanged(p, w), "asking-changes-nothing", api, f"({w}) monitor() changes the record", where, pathstr(p))
            elif to is TRUE:
                if not on or not unchanged(p, w):
                    recorded(ctx, p, w, api, cur, const(1), where)
            else:
                if on or not unchanged(p, w):
                    recorded(ctx, p, w, api, OFF, const(1), where)
            if used and to is not NONE and not unchanged(p, w):
                ctx.check(lst(p, "cached_xweight") == (), "cache-invalidated", api, f"({w}) statistics computed before are used afterwards", where, pathstr(p))
    for k, on, to in itertools.product((0, 1), (True, False), (TRUE, FALSE, NONE)):
        w = World(False, k, monitor=on, split=False)
        fi, ps = run(ctx, api, w, args={"value": to}, key=repr(to), **num)
        for p in ps:
            ctx.count("switches")
            want = (TRUE if on else FALSE) if to is NONE else to
            ctx.check(not p.raised and at_end(p, w, "_monitor") is want and p.outcome[1] is want and unchanged(p, w), "switch", api, f"({w}) monitor({to!r}) is wrong", ctx.where(fi), pathstr(p))
    for level, on, to in itertools.product((True, False), (True, False), (TRUE, FALSE, NONE)):
        w = World(level, 0, stats_only=True, monitor=on)
        fi, ps = run(ctx, api, w, args={"value": to}, key=repr(to), **num)
        where = ctx.where(fi)
        for p in ps:
            ctx.count("switches")
            want = (TRUE if on else FALSE) if to is NONE else to
            ctx.check(not p.raised and at_end(p, w, "_monitor") is want and p.outcome[1] is want, "switch", api, f"({w}) monitor({to!r}) is wrong", where, pathstr(p))
            if to is NONE or not on or not level:
                ctx.check(unchanged(p, w), "off-records-nothing", api, f"({w}) monitor({to!r}) changes the statistics", where, pathstr(p))
            else:
                accumulated(ctx, p, w, api, cur, tm.sub(NOW, A(SELF, "_ttally_monitored")), where)
            if level and to is not NONE:
                ctx.check(at_end(p, w, "_ttally_monitored") is NOW, "accounted-until-now", api, f"({w}) after monitor({to!r}) the time before now is still to be accounted for", where, pathstr(p))
                ctx.check(at_end(p, w, "_tally") is cur, "switch-keeps-value", api, f"({w}) monitor({to!r}) changes the current value", where, pathstr(p))
    # reset
    api = "Monitor.reset"
    so_arg = mk("sym", "arg:stats_only")
    for level, on, to, so, so2 in itertools.product((True, False), (True, False), (TRUE, FALSE, NONE), (False, True), (NONE, TRUE, FALSE)):
        w = World(level, 1, stats_only=so, monitor=on, cached=True, split=False)
        fi, ps = run(ctx, api, w, args={"monitor": to, "stats_only": so2}, key=repr((to, so2)), facts=notoff, **num)
        for p in ps:
            fresh_state(ctx, p, w, api, to, so2, (TRUE if on else FALSE), cur, ctx.where(fi))
    api = "Monitor.__init__"
    for level, to, so, init in itertools.product((TRUE, FALSE), (TRUE, FALSE), (TRUE, FALSE), (NONE, mk("sym", "arg:initial_tally"))):
        w = World(level is TRUE, 0, monitor=None, split=False)
        args = {"level": level, "monitor": to, "stats_only": so, "initial_tally": init, "fill": NONE, "env": mk("sym", "arg:env"), "type": NONE}
        ini = mk("sym", "arg:initial_tally")
        fi, ps = run(ctx, api, w, args=args, key=repr((level, to, so, init)), numeric=(ini,), facts=[(cmp_eq(ini, OFF), False), (cmp_eq(const(0), OFF), False), (cmp_eq(ini, NONE), False)])
        for p in ps:
            if level is FALSE and init is not NONE:
                ctx.check(p.raised, "initial-value", api, "a non level monitor accepts an initial value", ctx.where(fi), pathstr(p))
                continue
            fresh_state(ctx, p, w, api, to, so, to, const(0) if init is NONE else init, ctx.where(fi))
            if level is TRUE and not p.raised:
                ctx.check(at_end(p, w, "_tally") is (const(0) if init is NONE else init) and at_end(p, w, "_ttally") is NOW, "initial-value", api, f"the initial value is {at_end(p, w, '_tally')!r}", ctx.where(fi), pathstr(p))


def fresh_state(ctx, p, w, api, to, so2, was, cur, where):
    """a monitor that (re)starts now"""
    ps = pathstr(p)
    ctx.count("restarts")
    label = f"{w}, monitor={to!r}, stats_only={so2!r}"
    if p.raised:
        ctx.fail("restart", api, f"({label}) fails with {p.outcome[1].name}", where, ps)
        return
    on = was if to is NONE else to
    so = (TRUE if w.stats_only else FALSE) if so2 is NONE else so2
    ctx.check(at_end(p, w, "_monitor") is on and at_end(p, w, "_stats_only") is so, "restart", api, f"({label}) leaves the monitor {at_end(p, w, '_monitor')!r} and stats_only {at_end(p, w, '_stats_only')!r}", where, ps)
    ctx.check(at_end(p, w, "start") is NOW, "restart-time", api, f"({label}) the start becomes {at_end(p, w, 'start')!r}", where, ps)
    if w.level and api.endswith("reset"):
        ctx.check(at_end(p, w, "_tally") is cur, "restart-keeps-value", api, f"({label}) the current value becomes {at_end(p, w, '_tally')!r}", where, ps)
    if so is TRUE:
        for a in STATS:
            v = {"_minimum": INF, "_maximum": tm.neg(INF)}.get(a, const(0))
            ctx.check(lst(p, a) == (v, v), "restart-empty", api, f"({label}) {a} starts as {lst(p, a)!r}", where, ps)
        if w.level:
            ctx.check(at_end(p, w, "_ttally_monitored") is NOW, "accounted-until-now", api, f"({label}) the time before now is still to be accounted for", where, ps)
        return
    x, t = lst(p, "_x"), lst(p, "_t")
    if w.level:
        ctx.check(x == ((cur if on is TRUE else OFF),) and t == (NOW,), "restart-record", api, f"({label}) the record starts with {x!r} at {t!r}", where, ps)
    else:
        ctx.check(x == () and t == () and not weights(p, 0), "restart-record", api, f"({label}) the record starts with {x!r} at {t!r}", where, ps)
    if cache_used(ctx):
        c = lst(p, "cached_xweight")
        ctx.check(c == (), "cache-invalidated", api, f"({label}) statistics computed before are used afterwards", where, ps)


NAN = {mk("glob", "nan"), mk("glob", "math.nan"), const(float("nan"))}


def isnan(t):
    return t in NAN or t.op in ("pure",) and t.a[0] == "float" and "nan" in repr(t)


def included(p, w, ex0, base=None):
    out = []
    for i in range(w.k):
        if w.level and implied(p.facts, cmp_eq(X(i), OFF)) is True:
            continue
        if ex0 and implied(p.facts, cmp_eq(X(i), const(0))) is True:
            continue
        out.append((X(i), w.w(i)))
    return out


def judge_stat(p, what, xs, res):
    """does res equal the statistic of the weighted values xs? error or None"""
    S = const(0)
    for _, wt in xs:
        S = tm.add(S, wt)
    if what in ("mean", "std"):
        z = implied(p.facts, truth(S))
        if tm.is_num_const(S):
            z = tm.num_value(S) != 0
        if z is None:
            return "the total weight is not compared with 0"
        if not z:
            return None if isnan(res) else f"{res!r} without any weight, nan required"
        mean = tm.div(sum_([tm.mul(x, wt) for x, wt in xs]), S)
        if what == "mean":
            return None if same(res, mean) else f"{res!r}, {mean!r} required"
        if res.op != "pure" or res.a[0].split(".")[-1] != "sqrt":
            return f"{res!r} is not a square root"
        var = tm.div(sum_([tm.mul(wt, tm.mul(tm.sub(x, mean), tm.sub(x, mean))) for x, wt in xs]), S)
        return None if same(res.a[1], var) else f"{res!r}, the root of {var!r} required"
    if what in ("minimum", "maximum"):
        if not xs:
            return None if isnan(res) else f"{res!r} without any value, nan required"
        vs = [x for x, _ in xs]
        if res not in vs:
            return f"{res!r} is not one of the values {vs!r}"
        for v in vs:
            if v is not res and not (ge(p.facts, v, res) if what == "minimum" else ge(p.facts, res, v)):
                from .queue import Order
                o = Order(p.facts, [])
                if not (o.le(res, v) if what == "minimum" else o.le(v, res)):
                    return f"{res!r} although {v!r} may be {'less' if what == 'minimum' else 'greater'}"
        return None
    if what in ("weight", "duration"):
        return None if same(res, S) else f"{res!r}, {S!r} required"
    if what == "number_of_entries":
        return None if res is const(len(xs)) else f"{res!r}, {len(xs)} required"
    raise AssertionError(what)


def sum_(ts):
    r = const(0)
    for t in ts:
        r = tm.add(r, t)
    return r


def worlds(ctx, animate=True, cached=False):
    ks = (1, 2) if ctx.tier == "quick" else (1, 2, 3)
    for k in ks:
        for anim in (False, True) if animate else (False,):
            yield World(True, k, animate=anim, cached=cached)
    for k in (0,) + ks:
        for wt in (False, True):
            if k or not wt:
                yield World(False, k, weights=wt, cached=cached)


def c21_queries(ctx):
    used = cache_used(ctx)
    for w in worlds(ctx):
        for what, ex0 in itertools.product(("mean", "std", "minimum", "maximum", "weight", "duration", "number_of_entries"), (False, True)):
            api = "Monitor." + what
            if what in ("weight", "number_of_entries") and w.level or what == "duration" and not w.level:
                fi, ps = run(ctx, api, w, args={"ex0": TRUE if ex0 else FALSE}, key=str(ex0))
                for p in ps:
                    ctx.check(p.raised and p.outcome[1].name == "TypeError", "kind-of-monitor", api, f"({w}) does not raise TypeError", ctx.where(fi), pathstr(p))
                continue
            for wz in (False,) if w.level or not w.weights else (False,):
                fi, ps = run(ctx, api, w, args={"ex0": TRUE if ex0 else FALSE}, key=str(ex0))
                for p in ps:
                    ctx.count("statistics")
                    label = f"{w}, ex0={ex0}"
                    if p.raised:
                        ctx.fail("statistic", api, f"({label}) fails with {p.outcome[1].name}", ctx.where(fi), pathstr(p))
                        continue
                    err = judge_stat(p, what, included(p, w, ex0), p.outcome[1])
                    ctx.check(err is None, "statistic", api, f"({label}) gives {err}", ctx.where(fi), pathstr(p))
                    ctx.check(unchanged(p, w), "asking-changes-nothing", api, f"({label}) changes what was recorded", ctx.where(fi), pathstr(p))
                    cache_written(ctx, p, w, api, label, TRUE if ex0 else FALSE, TRUE, ctx.where(fi))
        for what in ("number_of_entries_zero", "weight_zero", "duration_zero"):
            api = "Monitor." + what
            fi, ps = run(ctx, api, w)
            for p in ps:
                where = ctx.where(fi)
                if w.level != what.startswith("duration"):
                    ctx.check(p.raised and p.outcome[1].name == "TypeError", "kind-of-monitor", api, f"({w}) does not raise TypeError", where, pathstr(p))
                    continue
                if any(v and f.op == "cmp" and f.a[0] == "in" and f.a[2] is CACHE for f, v in p.facts.items()):
                    continue  # answered from the cache: that has its own checks
                ctx.count("statistics")
                zero = [wt for x, wt in included(p, w, False) if implied(p.facts, cmp_eq(x, const(0))) is True]
                want = const(len(zero)) if what.startswith("number") else sum_(zero)
                ctx.check(not p.raised and same(p.outcome[1], want), "statistic", api, f"({w}) gives {p.outcome[1]!r}, {want!r} required", where, pathstr(p))
    if used:
        for w in worlds(ctx, cached=True):
            if w.k == 0 or w.k > 2:
                continue
            for ex0 in (False, True):
                api = "Monitor.mean"
                fi, ps = run(ctx, api, w, args={"ex0": TRUE if ex0 else FALSE}, key="cached" + str(ex0))
                e = TRUE if ex0 else FALSE
                for p in ps:
                    ctx.count("statistics from the cache")
                    if p.raised:
                        continue
                    hit = implied(p.facts, cmp_eq(cache_t(e, TRUE), w.T))
                    xs = list(zip(cache_x(e, TRUE), cache_w(e, TRUE))) if hit is True else included(p, w, ex0)
                    err = judge_stat(p, "mean", xs, p.outcome[1])
                    if hit is True and err is not None:
                        err = judge_stat(p, "mean", included(p, w, ex0), p.outcome[1])
                    ctx.check(err is None, "cache-key", api, f"({w}, ex0={ex0}) gives {err}", ctx.where(fi), pathstr(p))
    # stats_only
    cur = A(SELF, "_tally")
    for level, on, ex0, what in itertools.product((True, False), (True, False), (False, True), ("mean", "std", "minimum", "maximum", "weight", "duration", "number_of_entries")):
        if what in ("weight", "number_of_entries") and level or what == "duration" and not level:
            continue
        w = World(level, 0, stats_only=True, monitor=on)
        api = "Monitor." + what
        fi, ps = run(ctx, api, w, args={"ex0": TRUE if ex0 else FALSE}, key=str(ex0), numeric=(cur,))
        where = ctx.where(fi)
        for p in ps:
            ctx.count("statistics of stats_only monitors")
            label = f"{w}, ex0={ex0}"
            if p.raised:
                ctx.fail("statistic", api, f"({label}) fails with {p.outcome[1].name}", where, pathstr(p))
                continue
            if level and on:
                accumulated(ctx, p, w, api, cur, tm.sub(NOW, A(SELF, "_ttally_monitored")), where)
                ctx.check(at_end(p, w, "_ttally_monitored") is NOW, "accounted-until-now", api, f"({label}) accounts for the time until now more than once", where, pathstr(p))
                ctx.check(at_end(p, w, "_ttally") in (A(SELF, "_ttally"),), "asking-changes-nothing", api, f"({label}) changes the time of the current value", where, pathstr(p))
            else:
                ctx.check(unchanged(p, w), "asking-changes-nothing", api, f"({label}) changes the statistics", where, pathstr(p))
            if level:
                ctx.check(at_end(p, w, "_tally") is cur, "asking-changes-nothing", api, f"({label}) changes the current value", where, pathstr(p))
            e = 1 if ex0 else 0
            s = {a: (lst(p, a) or (None, None))[e] for a in STATS}
            r = p.outcome[1]
            if what in ("weight", "duration", "number_of_entries"):
                want = s["n" if what == "number_of_entries" else "sumw"]
                ctx.check(want is not None and same(r, want), "statistic", api, f"({label}) gives {r!r}", where, pathstr(p))
                continue
            guard = s["sumw"] if what in ("mean", "std") else s["n"]
            z = implied(p.facts, truth(guard))
            if isnan(r):
                ctx.check(z is False, "statistic", api, f"({label}) gives nan", where, pathstr(p))
                continue
            if what == "std":
                ok = r.op == "pure" and r.a[0].split(".")[-1] == "sqrt" and same(r.a[1], tm.div(s["sn"], s["sumw"]))
            else:
                ok = same(r, s[{"mean": "mun", "minimum": "_minimum", "maximum": "_maximum"}[what]])
            ctx.check(ok and z is True, "statistic", api, f"({label}) gives {r!r}", where, pathstr(p))


def h_iter(one):
    def h(eng, st, recv, pos, kw, node):
        return [(st, Raise("TypeError", node.lineno, st.fn))] if pos and pos[0] is one else None

    return h


STALE = {a: mk("sym", "old record " + a) for a in ("_x", "_t")}


def stats_only_refuses(ctx):
    """a stats_only monitor has no record (or an old one): what needs it is refused"""
    m = ctx.m
    own = {a for a in STALE}
    for n, fi in sorted(m.classes["Monitor"].methods.items()):
        if n.startswith("__") and n not in ("__call__", "__getitem__", "__add__", "__radd__", "__mul__", "__rmul__", "__truediv__"):
            continue
        if n.startswith("sys_") or n.startswith("_") and not n.startswith("__") or n in ("animate", "print_histograms", "as_dataframe", "as_resampled_dataframe", "setup", "register", "deregister", "print_histogram", "print_statistics"):
            continue
        for level in (True, False):
            def pre(eng, st, level=level):
                for a, v in STALE.items():
                    st.heap[(SELF, a)] = v
                for a, v in (("_stats_only", TRUE), ("_level", TRUE if level else FALSE), ("isgenerated", FALSE)):
                    st.heap[(SELF, a)] = v
                return [st]

            args = {"monitors": NONE} if n == "x_map" else {"monitors": mk("tuple")} if "monitors" in (fi.vararg or "", *fi.posargs) else {}
            if n == "__getitem__":
                args = {"key": mk("new", "slice", "key")}
            for p in ctx.paths(fi, key=f"so{level}", args=args, cls="Monitor", pre=pre, handlers=handlers(ctx), max_depth=6, assume={"_animate": None}, yieldless=False):
                ctx.count("stats_only calls")
                if p.raised:
                    continue
                if p.heap.get((SELF, "_stats_only")) is not TRUE:
                    continue  # not stats_only any more
                used = [p.outcome[1]] + [v for k, v in p.heap.items() if not (k[0] is SELF and k[1] in STALE) and isinstance(v, tm.T)] + list(p.facts)
                hit = [a for a, s in STALE.items() if any(s in list(subterms(v)) for v in used if isinstance(v, tm.T))]
                ctx.check(not hit, "stats-only-refused", fi.qual, f"of a stats_only {'level' if level else 'non level'} monitor uses a record ({', '.join(hit)}) that is not kept", ctx.where(fi), pathstr(p))
    ctx.floor("stats_only calls", 60)


def c21_history(ctx):
    """the value at a time, the recorded values and times, time per value"""
    from .queue import Order

    ks = (1, 2) if ctx.tier == "quick" else (1, 2, 3)
    cur = A(SELF, "_tally")
    S = mk("sym", "moment")
    for api in ("Monitor.get", "Monitor.__call__"):
        for k in ks:
            w = World(True, k, split=False)
            for t in (NONE, tm.sub(S, OFFSET)):
                fi, ps = run(ctx, api, w, args={"t": t}, key=repr(t), facts=[(cmp_lt(NOW, S), False)] + ([] if t is NONE else [(cmp_eq(t, NONE), False)]))
                for p in ps:
                    o = Order(p.facts, [Tm(i) for i in range(k)])
                    if o.contradictory():
                        continue
                    ctx.count("values at a time")
                    r = None if p.raised else p.outcome[1]
                    where = ctx.where(fi)
                    if t is NONE or implied(p.facts, cmp_eq(S, NOW)) is True:
                        ctx.check(r is cur, "value-now", api, f"({w}) the current value is reported as {r!r}", where, pathstr(p))
                    elif r is OFF:
                        ctx.check(o.lt(S, Tm(0)), "value-at-time", api, f"({w}) off is reported for a time after the start", where, pathstr(p))
                    else:
                        i = next((i for i in range(k) if r is X(i)), None)
                        ok = i is not None and o.le(Tm(i), S) and (i == k - 1 or o.lt(S, Tm(i + 1)))
                        ctx.check(ok, "value-at-time", api, f"({w}) the value at a time is reported as {r!r}", where, pathstr(p))
    for w in worlds(ctx):
        if w.k == 0 and w.level:
            continue
        for api, ex0, exoff, add in itertools.product(("Monitor.xt", "Monitor.tx"), (False, True), (False, True), (False, True)):
            args = {"ex0": TRUE if ex0 else FALSE, "exoff": TRUE if exoff else FALSE, "add_now": TRUE if add else FALSE, "force_numeric": FALSE}
            fi, ps = run(ctx, api, w, args=args, key=f"{ex0}{exoff}{add}", numeric=())
            for p in ps:
                ctx.count("recorded series")
                where = ctx.where(fi)
                label = f"{w}, ex0={ex0}, exoff={exoff}, add_now={add}"
                want = []
                for i in range(w.k + (1 if add and w.level else 0)):
                    x, t = (X(i), Tm(i)) if i < w.k else (X(w.k - 1), w.T)
                    if ex0 and implied(p.facts, cmp_eq(x, const(0))) is True:
                        continue
                    if exoff and w.level and implied(p.facts, cmp_eq(x, OFF)) is True:
                        continue
                    want.append((x, t))
                got = None
                if not p.raised and p.outcome[1].op in ("tuple", "list") and len(p.outcome[1].a) == 2:
                    a, b = (p.heap.get((q, "#items"), q) for q in p.outcome[1].a)
                    got = list(zip(a.a, b.a)) if api.endswith("xt") else list(zip(b.a, a.a))
                    if len(a.a) != len(b.a):
                        got = None
                ctx.check(got == want, "series", api, f"({label}) gives {got!r}, {want!r} required", where, pathstr(p))
                ctx.check(unchanged(p, w), "asking-changes-nothing", api, f"({label}) changes what was recorded", where, pathstr(p))
    for w in worlds(ctx):
        for what, ex0, fn in itertools.product(("x", "xweight", "xduration"), (False, True), (False, True)):
            api = "Monitor." + what
            if w.level != (what == "xduration") or w.k == 0 and w.level:
                continue
            fi, ps = run(ctx, api, w, args={"ex0": TRUE if ex0 else FALSE, "force_numeric": TRUE if fn else FALSE}, key=f"{ex0}{fn}")
            for p in ps:
                ctx.count("recorded series")
                where = ctx.where(fi)
                label = f"{w}, ex0={ex0}, force_numeric={fn}"
                want = included(p, w, ex0)
                got = None
                if not p.raised and what == "x":
                    a = p.heap.get((p.outcome[1], "#items"), p.outcome[1])
                    want = [x for x, _ in want]
                    got = list(a.a) if a.op in ("list", "tuple") else None
                    ok = got == want
                elif not p.raised and p.outcome[1].op in ("tuple", "list") and len(p.outcome[1].a) == 2:
                    a, b = (p.heap.get((q, "#items"), q) for q in p.outcome[1].a)
                    got = list(zip(a.a, b.a)) if len(a.a) == len(b.a) else None
                    ok = got is not None and len(got) == len(want) and all(x is y and (u is v or same(u, v)) for (x, u), (y, v) in zip(got, want))
                else:
                    ok = False
                ctx.check(ok, "series", api, f"({label}) gives {got!r}, {want!r} required", where, pathstr(p))
                ctx.check(unchanged(p, w), "asking-changes-nothing", api, f"({label}) changes what was recorded", where, pathstr(p))
                cache_written(ctx, p, w, api, label, TRUE if ex0 else FALSE, TRUE if fn else FALSE, where)
    lo, hi = mk("sym", "arg:lowerbound"), mk("sym", "arg:upperbound")
    one = mk("sym", "wanted")
    VALUES = mk("new", "list", "wanted")
    for w in worlds(ctx, animate=False):
        for api in ("Monitor.bin_duration", "Monitor.bin_weight", "Monitor.bin_number_of_entries", "Monitor.value_duration", "Monitor.value_weight", "Monitor.value_number_of_entries"):
          for form in (False, True):
            # form: ex0 for bins that count entries; a value that stands alone
            if form and not ("value_" in api or api.endswith("entries")):
                continue
            lev = api.endswith("duration")
            args = {"value": one if form else mk("tuple", one)} if "value_" in api else {"ex0": TRUE if form else FALSE} if api.endswith("entries") else {}
            fi, ps = run(ctx, api, w, args=args, key=f"form{form}", extra={"iter": h_iter(one)}, **({"numeric": (one,)} if form and "value_" in api else {}))
            for p in ps:
                where = ctx.where(fi)
                if lev != w.level:
                    ctx.check(p.raised and p.outcome[1].name == "TypeError", "kind-of-monitor", api, f"({w}) does not raise TypeError", where, pathstr(p))
                    continue
                o = Order(p.facts, [])
                if o.contradictory():
                    continue
                ctx.count("per value")
                tot = const(0)
                und = False
                for x, wt in included(p, w, form and "bin_" in api):
                    if "value_" in api:
                        v = implied(p.facts, cmp_eq(x, one))
                    else:
                        above = True if o.lt(lo, x) else False if o.le(x, lo) else None
                        under = True if o.le(x, hi) else False if o.lt(hi, x) else None
                        v = False if above is False or under is False else True if above and under else None
                    if v is None:
                        und = True
                    elif v:
                        tot = tm.add(tot, const(1) if api.endswith("entries") else wt)
                if "value_" in api:
                    cache_written(ctx, p, w, api, str(w), FALSE, FALSE, where)
                ctx.check(not und and not p.raised and same(p.outcome[1], tot), "time-per-value", api, f"({w}) gives {p.outcome[1]!r}, {tot!r} required", where, pathstr(p))
                ctx.check(unchanged(p, w), "asking-changes-nothing", api, f"({w}) changes what was recorded", where, pathstr(p))


@prop("C21")
def c21(ctx):
    c21_tally(ctx)
    c21_switch(ctx)
    ctx.floor("tallies", 20)
    ctx.floor("switches", 20)
    ctx.floor("restarts", 40)


@prop("C33")
def c33(ctx):
    c21_queries(ctx)
    c21_history(ctx)
    stats_only_refuses(ctx)
    from . import percentile

    percentile.check(ctx)
    ctx.floor("statistics", 100)
    ctx.floor("values at a time", 8)
    ctx.floor("recorded series", 50)
    ctx.floor("per value", 20)
