"""Monitors derived from other monitors: slices, merges, mapped and multiplied monitors.

A level monitor is a step function of time. The time points involved (recorded times, bounds, now) are taken in every
possible order (ties included); on each path of the operation the step function that is recorded in the new monitor is
compared with the one required, at every time point.
"""
import ast
import itertools
from lib.core import *
from lib.engine import and_facts
from . import prop
from .resource import A
from .queue import Order
from .monitor import assume, number, lst, weights, eqw, same, h_skip

M2 = mk("new", "Monitor", "other")
START, STOP = mk("sym", "begin"), mk("sym", "end")
KW = mk("new", "dict", "no keywords")
FUNC = mk("sym", "arg:func")


def X(m, i):
    return mk("sym", f"{'x' if m is SELF else 'y'}{i}")


def Tm(m, i):
    return mk("sym", f"{'t' if m is SELF else 'u'}{i}")


def W(m, i):
    return mk("sym", f"{'w' if m is SELF else 'v'}{i}")


def OFFof(m, mixed=False):
    return A(m if mixed else SELF, "off")


def L(m, a):
    return mk("new", "list", f"{a} of {m!r}")


def weak_orders(chains, points, last):
    """all orders (with ties) of the points that respect the (strictly increasing) chains and are not after last (chain points)"""
    pts = [p for c in chains for p in c] + list(points)
    out = []

    def go(rest, acc):
        if not rest:
            out.append(acc)
            return
        p, rest2 = rest[0], rest[1:]
        for i in range(2 * len(acc) + 1):
            new = [list(g) for g in acc]
            if i % 2:
                new[i // 2].append(p)
            else:
                new.insert(i // 2, [p])
            if ok(new):
                go(rest2, new)

    def ok(gs):
        ix = {p: i for i, g in enumerate(gs) for p in g}
        for c in chains:
            for a, b in zip(c, c[1:]):
                if a in ix and b in ix and not ix[a] < ix[b]:
                    return False
            for a in c:
                if a in ix and last in ix and ix[a] > ix[last]:
                    return False
        return True

    go(pts + [last], [])
    return out


class World:
    def __init__(self, level, ks, order=None, weighted=False, animate=False, typed=True, mixed=False):
        self.level, self.ks, self.order, self.weighted, self.animate, self.typed, self.mixed = level, ks, order, weighted, animate, typed, mixed
        self.ms = [SELF, M2][: len(ks)]
        self.T = A(ENV, "_t") if animate else NOW

    def off(self, m):
        return OFFof(m, self.mixed)

    def start(self, m):
        return self.tm(m, 0) if self.level else mk("sym", "start of " + repr(m))

    def tm(self, m, i):
        return Tm(m, i)

    def ix(self, t):
        for i, g in enumerate(self.order):
            if t in g:
                return i
        return None

    def __str__(self):
        o = " < ".join(" = ".join(map(repr, g)) for g in self.order) if self.order else ""
        return ("level" if self.level else "non level") + (", different types" if self.mixed else "") + (", weighted" if self.weighted else "") + (", animated" if self.animate else "") + f"; {o}".replace("ENV._", "")

    def pre(self, facts=()):
        def f(eng, st):
            h = st.heap
            st.uniq = 100
            h[(KW, "#items")] = mk("list")
            h[(ENV, "_animate")] = TRUE if self.animate else FALSE
            fs = []
            for m, k in zip(self.ms, self.ks):
                for a, v in (("_level", self.level), ("_stats_only", False), ("isgenerated", False)):
                    h[(m, a)] = TRUE if v else FALSE
                h[(m, "xtype")] = const("int8" if self.mixed and m is M2 else "float")
                h[(m, "off")] = self.off(m)
                h[(m, "xtypecode")] = const("d" if self.typed else "")
                h[(m, "start")] = self.start(m)
                for a, g in (("_x", X), ("_t", self.tm)):
                    h[(m, a)] = L(m, a)
                    h[(L(m, a), "#items")] = mk("list", *(g(m, i) for i in range(k)))
                h[(m, "_weight")] = TRUE if self.level else FALSE
                if self.weighted and k:
                    h[(m, "_weight")] = L(m, "_weight")
                    h[(L(m, "_weight"), "#items")] = mk("list", *(W(m, i) for i in range(k)))
                fs += [(number(X(m, i)), True) for i in range(k)]
                if not self.level:
                    s = h[(m, "start")]
                    fs += [(cmp_lt(Tm(m, i), s), False) for i in range(k)] + [(cmp_lt(t, s), False) for t in (START, STOP)]
            fs.append((cmp_eq(NOW, INF), False))
            fs.append((cmp_eq(A(SELF, "off"), const(0)), False))
            for t in (START, STOP):
                fs += [(cmp_eq(t, INF), False), (cmp_lt(INF, t), False), (cmp_lt(t, tm.neg(INF)), False), (cmp_lt(t, INF), True)]
                fs.append((cmp_eq(tm.sub(t, OFFSET), NONE), False))
            fs += [(cmp_lt(INF, self.T), False), (cmp_lt(self.T, INF), True)]
            for m, k in zip(self.ms, self.ks):
                for i in range(k):
                    fs += [(cmp_lt(INF, Tm(m, i)), False), (cmp_lt(tm.neg(INF), Tm(m, i)), True), (cmp_eq(X(m, i), tm.neg(INF)), False)]
                if not self.level:
                    fs.append((cmp_lt(tm.neg(INF), h[(m, "start")]), True))
            if self.order:
                flat = [(p, i) for i, g in enumerate(self.order) for p in g]
                for (p, i), (q, j) in itertools.combinations(flat, 2):
                    if i == j:
                        fs.append((cmp_eq(p, q), True))
                        fs.append((cmp_lt(p, q), False))
                        fs.append((cmp_lt(q, p), False))
                    elif i < j:
                        fs.append((cmp_lt(p, q), True))
                    else:
                        fs.append((cmp_lt(q, p), True))
            outs = [st]
            for a, v in fs + list(facts):
                outs = [y for x in outs for y in assume(x, a, v)]
            if self.level:
                for m, k in zip(self.ms, self.ks):
                    for i in range(k):
                        outs = [y for x in outs for v in (True, False) for y in assume(x, cmp_eq(X(m, i), self.off(m)), v)]
                outs = [z for x in outs for z in self.consistent(x)]
            return outs

        return f

    def consistent(self, st):
        """values that are both off are equal, values of which one is off are not"""
        xs = [X(m, i) for m, k in zip(self.ms, self.ks) for i in range(k)]
        own = {X(m, i): m for m, k in zip(self.ms, self.ks) for i in range(k)}
        off = {x: st.facts.get(cmp_eq(x, self.off(own[x]))) for x in xs}
        outs = [st]
        for a, b in itertools.combinations(xs, 2):
            if self.mixed and own[a] is not own[b]:
                continue
            if off[a] or off[b]:
                outs = [y for x in outs for y in assume(x, cmp_eq(a, b), bool(off[a] and off[b]))]
        return outs

    def value(self, p, m, k, t):
        """value of monitor m at (index of) time t: a term, or OFF"""
        r = None
        for i in range(k):
            if self.ix(self.tm(m, i)) <= t:
                r = X(m, i)
        if r is None or implied(p.facts, cmp_eq(r, self.off(m))) is True:
            return "off"
        return r


class Periodic(World):
    """times are small whole numbers: all that matters is how they lie with respect to the periods"""

    def __init__(self, level, times, now, begin, offset=0, weighted=False):
        super().__init__(level, (len(times),), weighted=weighted)
        self.times, self.now, self.begin, self.offset = times, now, begin, offset
        self.T = const(now)
        self.order = [[const(v)] for v in range(min(times + (begin,)), now + 1)]

    def tm(self, m, i):
        return const(self.times[i])

    def start(self, m):
        return const(self.begin)

    def __str__(self):
        return ("level" if self.level else "non level") + (", weighted" if self.weighted else "") + f", started at {self.begin}, recorded at {list(self.times)}, now {self.now}, offset {self.offset}"

    def pre(self, facts=()):
        def f(eng, st):
            h = st.heap
            h[(ENV, "_now")] = const(self.now)
            h[(ENV, "_t")] = const(self.now)
            h[(ENV, "_offset")] = const(self.offset)
            order, self.order = self.order, None
            try:
                return super(Periodic, self).pre(facts)(eng, st)
            finally:
                self.order = order

        return f


def handlers(ctx, offs=None):
    init = ctx.m.need("Monitor.__init__")

    def system(eng, st, recv, pos, kw, node):
        st, t = eng.fresh("_SystemMonitor", st, node)
        out = []
        for x, r in eng.call_func(init, t, pos, kw, st, node):
            if isinstance(r, Raise):
                out.append((x, r))
            else:
                x.heap[(t, "#created with")] = mk("list", kw.get("type", NONE), kw.get("env", NONE))
                out.append((x, t))
        return out

    def typecode(eng, st, recv, b, node, fi):
        if b.get("type") is const("any"):
            return [(st, mk("tuple", const(""), tm.neg(INF)))]
        return [(st, mk("tuple", eng.rd(SELF, "xtypecode", st), A(SELF, "off")))]

    def flt(eng, st, recv, pos, kw, node):
        return [(st, pos[0])] if len(pos) == 1 and pos[0].op in ("sym", "attr", "lin", "glob") else None

    def env(eng, st, recv, b, node, fi):
        return [(st, ENV)]

    return {"_SystemMonitor": system, "type_to_typecode_off": typecode, "_set_env": env, "_set_name": h_skip, "_check_overlapping_parameters": h_skip, "Monitor.setup": h_skip, "Monitor._block_stats_only": h_skip, "float": flt}


def run(ctx, api, w, args=None, key="", facts=()):
    fi = ctx.m.need(api)
    return fi, ctx.paths(fi, key=f"der{w}{w.ks}{w.typed}{w.mixed}{key}", args=args, cls="Monitor", pre=w.pre(facts), handlers=handlers(ctx), max_depth=9, assume={"_animate": None}, unroll_known=12, while_k=6)


def untouched(p, w):
    for m, k in zip(w.ms, w.ks):
        if lst(p, "_x", m) != tuple(X(m, i) for i in range(k)) or lst(p, "_t", m) != tuple(w.tm(m, i) for i in range(k)):
            return False
        if p.heap.get((m, "isgenerated")) is not FALSE:
            return False
        if w.weighted and k and lst(p, "_weight", m) != tuple(W(m, i) for i in range(k)):
            return False
    return True


def derived(ctx, p, w, api, where, scale=None):
    """the result is a new monitor that is fixed and off, and the sources are as they were"""
    ps = pathstr(p)
    if not ctx.check(not p.raised, "derived", api, f"({w}) fails with {p.outcome[1]!r}", where, ps):
        return None
    r = p.outcome[1]
    if not ctx.check(r.op == "new" and r.a[0] in ctx.m.classes and ctx.m.issub(r.a[0], "Monitor") and r not in w.ms, "derived", api, f"({w}) does not give a new monitor", where, ps):
        return None
    ctx.check(p.heap.get((r, "isgenerated")) is TRUE, "derived-is-fixed", api, f"({w}) gives a monitor that can be tallied", where, ps)
    ctx.check(p.heap.get((r, "_level")) is (TRUE if w.level else FALSE), "derived-level", api, f"({w}) the new monitor is {'not ' if w.level else ''}a level monitor", where, ps)
    ctx.check(p.heap.get((r, "_monitor")) is FALSE, "derived-is-off", api, f"({w}) gives a monitor that is on", where, ps)
    ctx.check(untouched(p, w), "source-unchanged", api, f"({w}) changes a monitor it is derived from", where, ps)
    same_list = [a for a in ("_x", "_t") for m in w.ms if p.heap.get((r, a)) is L(m, a)]
    ctx.check(not same_list, "source-unchanged", api, f"({w}) the new monitor shares its record with the source", where, ps)
    x, t = lst(p, "_x", r), lst(p, "_t", r)
    if not ctx.check(x is not None and t is not None and len(x) == len(t), "derived", api, f"({w}) values {x!r} at {t!r}", where, ps):
        return None
    s = p.heap.get((r, "start"))
    sc = scale or (lambda v: v)
    early = s is not None and all(same(s, v) or implied(p.facts, cmp_lt(v, s)) is False for v in (sc(w.start(m)) for m in w.ms)) or w.level and t and same(s, t[0]) and len(w.ms) > 1
    ctx.check(early, "derived-start", api, f"({w}) the new monitor starts at {s!r}, later than what it is derived from: it is empty when sliced", where, ps)
    return r, x, t


def step(ctx, p, w, api, r, x, t, want, where, lo=0):
    """the step function (x, t) equals want(index of time) at all time points before now"""
    ps = pathstr(p)
    idx = [w.ix(u) for u in t]
    if not ctx.check(None not in idx, "derived-times", api, f"({w}) the new monitor has times {t!r}", where, ps):
        return
    ctx.check(all(a < b for a, b in zip(idx, idx[1:])), "derived-times", api, f"({w}) the times {t!r} are not increasing", where, ps)
    off = p.heap.get((r, "off"))
    for i in range(lo, w.ix(w.T) + 1):
        got = "off"
        for v, j in zip(x, idx):
            if j <= i:
                got = v
        if isinstance(got, tm.T) and (got is off or implied(p.facts, cmp_eq(got, off)) is True):
            got = "off"
        exp = want(i) if i < w.ix(w.T) else "off"
        ok = got == exp if "off" in (got, exp) else same(got, exp) or implied(p.facts, cmp_eq(got, exp)) is True or chain_equal(p.facts, got, exp)
        if not ctx.check(ok, "derived-values", api, f"({w}) from {w.order[i]!r} on, the value is {got!r}, {exp!r} required", where, ps):
            return


@prop("C34")
def c34(ctx):
    thorough = ctx.tier != "quick"
    # --- slices of a level monitor
    api = "Monitor.slice"
    for k, given, anim in itertools.product((1, 2, 3) if thorough else (1, 2), ("both", "start", "stop", "none"), (False, True)):
        pts = [q for q, g in ((START, ("both", "start")), (STOP, ("both", "stop"))) if given in g]
        chain = [Tm(SELF, i) for i in range(k)]
        T = A(ENV, "_t") if anim else NOW
        for order in weak_orders([chain], pts, T):
            if anim:
                order = [g + [NOW] if T in g else g for g in order]
            w = World(True, (k,), order=order, animate=anim)
            if given == "both" and w.ix(STOP) < w.ix(START) or START in pts and w.ix(START) > w.ix(T):
                continue
            if anim and k > 1:
                # the animation clock is between two events
                continue
            args = {"start": tm.sub(START, OFFSET) if START in pts else NONE, "stop": tm.sub(STOP, OFFSET) if STOP in pts else NONE, "modulo": NONE, "name": NONE}
            fi, ps = run(ctx, api, w, args=args)
            where = ctx.where(fi)
            for p in ps:
                ctx.count("slices")
                r = derived(ctx, p, w, api, where)
                if r is None:
                    continue
                lo = w.ix(START) if START in pts else -1
                hi = w.ix(STOP) if STOP in pts else len(order)
                step(ctx, p, w, api, r[0], r[1], r[2], lambda i: w.value(p, SELF, k, i) if lo <= i < hi else "off", where)
    for k, given, wt, anim in itertools.product((1, 2), ("both", "start", "stop", "none"), (False, True), (False, True)):
        T = A(ENV, "_t") if anim else NOW
        pts = [q for q, g in ((START, ("both", "start")), (STOP, ("both", "stop"))) if given in g]
        chain = [Tm(SELF, i) for i in range(k)]
        for order in weak_orders([], pts + chain, T):
            if anim:
                order = [g + [NOW] if T in g else g for g in order]
            w = World(False, (k,), order=order, weighted=wt, animate=anim)
            ix = [w.ix(t) for t in chain]
            if given == "both" and w.ix(STOP) < w.ix(START) or ix != sorted(ix) or ix[-1] > w.ix(T):
                continue
            args = {"start": tm.sub(START, OFFSET) if START in pts else NONE, "stop": tm.sub(STOP, OFFSET) if STOP in pts else NONE, "modulo": NONE, "name": NONE}
            fi, ps = run(ctx, api, w, args=args)
            where = ctx.where(fi)
            for p in ps:
                ctx.count("slices")
                r = derived(ctx, p, w, api, where)
                if r is None:
                    continue
                lo = w.ix(START) if START in pts else -1
                hi = w.ix(STOP) if STOP in pts else len(order)
                inc = [i for i in range(k) if lo <= ix[i] < hi]
                flat(ctx, p, w, api, r, [(X(SELF, i), Tm(SELF, i), W(SELF, i) if wt else const(1)) for i in inc], where)
    # --- slices of periods
    N = 4
    cases = []
    grid = itertools.product((0, 2, 5), (1, 4), (0, 1, 2, 3), (0, 3), (1, 2), (0,)) if not thorough else itertools.product(range(0, 6), range(1, 6), range(0, 6), range(0, 4), range(1, 4), (0, 1))
    for a, d, e, s, n, o in grid:
        cases.append((True, (a, a + d), a + d + e, a, s, n, o))
        cases.append((False, (a, a + d), a + d + e, max(0, a - 1), s, n, o))
        if d == 1:
            cases.append((False, (a + d, a + d), a + d + e, a, s, n, o))
    cases.append((False, (), 6, 0, 0, 1, 0))
    cases.append((False, (1,), 6, 0, 5, 2, 3))
    for level, times, now, begin, s, n, o in cases:
        w = Periodic(level, times, now, begin, o, weighted=not level and s % 2 == 1)
        fi, ps = run(ctx, api, w, args={"start": const(s), "stop": const(s + n), "modulo": const(N), "name": NONE}, key=f"mod{s},{n}")
        where = ctx.where(fi)
        what = f" sliced from {s} to {s + n} modulo {N}"
        for p in ps:
            ctx.count("periodic slices")
            r = derived(ctx, p, w, api + what, where)
            if r is None:
                continue
            inp = lambda v: (v - o - s) % N < n
            if level:
                step(ctx, p, w, api + what, r[0], r[1], r[2], lambda i: w.value(p, SELF, 2, i) if inp(i + w.times[0]) else "off", where)
            else:
                flat(ctx, p, w, api + what, r, [(X(SELF, i), w.tm(SELF, i), W(SELF, i) if w.weighted else const(1)) for i in range(len(times)) if inp(times[i])], where)
    ctx.floor("periodic slices", 300)
    # --- merges
    api = "Monitor.merge"
    for k1, k2, typed, mixed in itertools.product((1, 2), (1, 2), (True, False), (False, True)):
        if mixed and not typed or not thorough and k1 == k2 == 2 and (not typed or mixed):
            continue
        for order in weak_orders([[Tm(SELF, i) for i in range(k1)], [Tm(M2, i) for i in range(k2)]], [], NOW):
            w = World(True, (k1, k2), order=order, typed=typed, mixed=mixed)
            fi, ps = run(ctx, api, w, args={"monitors": mk("tuple", M2), "kwargs": KW})
            where = ctx.where(fi)
            for p in ps:
                ctx.count("merges")
                r = derived(ctx, p, w, api, where)
                if r is None:
                    continue

                def total(i):
                    a, b = w.value(p, SELF, k1, i), w.value(p, M2, k2, i)
                    return "off" if "off" in (a, b) else tm.add(a, b)

                step(ctx, p, w, api, r[0], r[1], r[2], total, where)
    for k1, k2, wt in itertools.product((0, 1, 2), (0, 1), (False, True)):
        chains = [[Tm(SELF, i) for i in range(k1)], [Tm(M2, i) for i in range(k2)]]
        for order in weak_orders([], chains[0] + chains[1], NOW):
            w = World(False, (k1, k2), order=order, weighted=wt)
            if any(list(map(w.ix, c)) != sorted(map(w.ix, c)) or c and w.ix(c[-1]) > w.ix(NOW) for c in chains):
                continue
            fi, ps = run(ctx, api, w, args={"monitors": mk("tuple", M2), "kwargs": KW})
            where = ctx.where(fi)
            for p in ps:
                ctx.count("merges")
                r = derived(ctx, p, w, api, where)
                if r is None:
                    continue
                want = [(w.ix(Tm(m, i)), j, i, (X(m, i), Tm(m, i), W(m, i) if wt else const(1))) for j, (m, k) in enumerate(zip(w.ms, w.ks)) for i in range(k)]
                flat(ctx, p, w, api, r, [q[3] for q in sorted(want, key=lambda q: q[:3])], where)
    # --- mapped
    api = "Monitor.x_map"
    others = mk("new", "list", "others")
    for k1, k2 in itertools.product((1, 2), (0, 1)):
        chains = [[Tm(SELF, i) for i in range(k1)], [Tm(M2, i) for i in range(k2)]]
        for order in weak_orders(chains, [], NOW):
            w = World(True, (k1, k2) if k2 else (k1,), order=order)
            arg = mk("tuple", M2) if k2 else mk("tuple")
            fi, ps = run(ctx, api, w, args={"monitors": mk("list", *arg.a), "func": FUNC, "name": NONE}, facts=[(cmp_eq(mk("app", FUNC, *t), tm.neg(INF)), False) for t in app_args(k1, k2)])
            where = ctx.where(fi)
            for p in ps:
                if not feasible_off(p, w):
                    continue
                ctx.count("mapped monitors")
                r = derived(ctx, p, w, api, where)
                if r is None:
                    continue

                def image(i):
                    v = [w.value(p, m, k, i) for m, k in zip(w.ms, w.ks)]
                    return "off" if "off" in v else mk("app", FUNC, *v)

                step(ctx, p, w, api, r[0], r[1], r[2], image, where)
    for k, wt in itertools.product((0, 1, 2), (False, True)):
        w = World(False, (k,), weighted=wt)
        never = [(cmp_eq(X(SELF, i), v), False) for i in range(k) for v in (A(SELF, "off"), tm.neg(INF))]
        fi, ps = run(ctx, api, w, args={"monitors": mk("list"), "func": FUNC, "name": NONE}, facts=never)
        for p in ps:
            ctx.count("mapped monitors")
            r = derived(ctx, p, w, api, ctx.where(fi))
            if r is not None:
                flat(ctx, p, w, api, r, [(mk("app", FUNC, X(SELF, i)), Tm(SELF, i), W(SELF, i) if wt else const(1)) for i in range(k)], ctx.where(fi))
        api2 = "Monitor.multiply"
        scale = mk("sym", "arg:scale")
        fi, ps = run(ctx, api2, w, args={"name": NONE}, key="mult", facts=never)
        for p in ps:
            ctx.count("mapped monitors")
            r = derived(ctx, p, w, api2, ctx.where(fi))
            if r is not None:
                flat(ctx, p, w, api2, r, [(tm.mul(scale, X(SELF, i)), Tm(SELF, i), W(SELF, i) if wt else const(1)) for i in range(k)], ctx.where(fi))
    # --- multiplied in time
    api = "Monitor.t_multiply"
    if "t_multiply" in ctx.m.classes["Monitor"].methods:
        f = mk("sym", "arg:factor")
        for k in (1, 2):
            for order in weak_orders([[Tm(SELF, i) for i in range(k)]], [], NOW):
                w = World(True, (k,), order=order)
                fi, ps = run(ctx, api, w, args={"name": NONE}, facts=[(cmp_lt(const(0), f), True)])
                where = ctx.where(fi)
                for p in ps:
                    ctx.count("mapped monitors")
                    r = derived(ctx, p, w, api, where, scale=lambda v: tm.mul(f, v))
                    if r is None:
                        continue
                    t = []
                    for u in r[2]:
                        b = [q for g in order for q in g if same(u, tm.mul(f, q))]
                        t.append(b[0] if b else u)
                    step(ctx, p, w, api, r[0], r[1], t, lambda i: w.value(p, SELF, k, i), where)
    frozen(ctx)
    ctx.floor("slices", 100)
    ctx.floor("merges", 60)
    ctx.floor("mapped monitors", 30)


def frozen(ctx):
    """a frozen monitor is a fixed copy in an environment of its own, whose clock stands still at now"""
    api = "Monitor.freeze"
    fi = ctx.m.need(api)
    own, new = A(SELF, "env"), mk("new", "Environment", "frozen")

    def environment(eng, st, recv, pos, kw, node):
        return [(st, new)]

    def deepcopy(eng, st, recv, pos, kw, node):
        st, t = eng.fresh("Monitor", st, node)
        for a in ("env", "_level", "isgenerated"):
            v = eng.rd(pos[0], a, st)
            st.heap[(t, a)] = mk("new", "Environment", "copy of the running one") if v is own else v
        st.heap[(t, "#copy of")] = pos[0]
        return [(st, t), (st.clone(), Raise("CopyError", node.lineno, st.fn))]

    for p in ctx.paths(fi, key="freeze", cls="Monitor", merge_env=False, yieldless=False, extra_handlers={"Environment": environment, "copy.deepcopy": deepcopy, "Monitor._block_stats_only": h_skip, "Environment.get_time_unit": h_skip}):
        ps, where = pathstr(p), ctx.where(fi)
        if p.raised and p.outcome[1].name == "CopyError":
            ctx.check(p.heap.get((SELF, "env"), own) is own, "source-unchanged", api, "a monitor that cannot be copied is left in another environment", where, ps)
            continue
        if not ctx.check(not p.raised, "frozen", api, f"fails with {p.outcome[1]!r}", where, ps):
            continue
        r = p.outcome[1]
        ctx.count("frozen monitors")
        if not ctx.check(p.heap.get((r, "#copy of")) is SELF, "frozen", api, "the result is not a full copy of the monitor", where, ps):
            continue
        e = p.heap.get((r, "env"))
        ctx.check(e is new, "frozen-environment", api, f"the frozen monitor is in {e!r}, not in an environment of its own", where, ps)
        ctx.check(p.heap.get((SELF, "env"), own) is own, "source-unchanged", api, "the monitor is left in another environment", where, ps)
        ctx.check(p.heap.get((r, "isgenerated")) is TRUE, "derived-is-fixed", api, "a frozen monitor can be tallied", where, ps)
        ctx.check(p.heap.get((SELF, "isgenerated"), A(SELF, "isgenerated")) is A(SELF, "isgenerated"), "source-unchanged", api, "the monitor itself is frozen", where, ps)
        for a in ("_now", "_offset", "_t"):
            v = p.heap.get((new, a))
            ctx.check(v is A(own, a), "frozen-clock", api, f"{a} in the environment of a frozen monitor is {v!r}", where, ps)
        ctx.check(p.heap.get((new, "_animate")) is FALSE, "frozen-clock", api, "the environment of a frozen monitor is animated", where, ps)
    ctx.floor("frozen monitors", 2)


def app_args(k1, k2):
    for i in range(k1):
        if k2:
            for j in range(k2):
                yield X(SELF, i), X(M2, j)
        else:
            yield (X(SELF, i),)


def feasible_off(p, w):
    return True


def flat(ctx, p, w, api, r, want, where):
    m, x, t = r
    ps = pathstr(p)
    n = len(want)
    ctx.check(len(x) == n and all(same(a, b[0]) for a, b in zip(x, want)), "derived-values", api, f"({w}) gives values {x!r}, {[q[0] for q in want]!r} required", where, ps)
    ctx.check(tuple(t) == tuple(q[1] for q in want), "derived-times", api, f"({w}) gives times {t!r}, {[q[1] for q in want]!r} required", where, ps)
    ws = weights(p, n, m)
    ctx.check(eqw(p, ws, tuple(q[2] for q in want)), "derived-weights", api, f"({w}) gives weights {ws!r}, {[q[2] for q in want]!r} required", where, ps)
