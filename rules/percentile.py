"""Percentiles of a monitor: over all orders of the values, for weights and percentages on a grid."""
import itertools
from fractions import Fraction
from lib.core import *
from lib.ratio import norm
from .monitor import World, X, L, run, isnan, OFF

F = Fraction


class Fixed(World):
    """a monitor whose values are unknown but ordered, with known weights"""

    def __init__(self, level, k, ws=None, order=None, zero=None):
        super().__init__(level, k, weights=ws is not None and not level, split=False)
        self.ws, self.order, self.zero = ws or (1,) * k, order or tuple(range(k)), zero

    def __str__(self):
        return (f"level, durations {self.ws}" if self.level else f"weights {self.ws}" if self.weights else "no weights") + ", values " + " < ".join(f"x{i}" + (" (0)" if i == self.zero else "") for i in self.order)

    def pre(self, **kw):
        o = self.order
        fs = [(cmp_lt(X(a), X(b)), True) for a, b in itertools.combinations(o, 2)]
        fs += [(cmp_eq(X(i), const(0)), i == self.zero) for i in o] + [(cmp_eq(X(i), OFF), False) for i in o]
        if self.zero is not None:
            z = o.index(self.zero)
            fs += [(cmp_lt(X(i), const(0)), True) for i in o[:z]] + [(cmp_lt(const(0), X(i)), True) for i in o[z + 1:]]
        base = super().pre(facts=fs)

        def f(eng, st):
            outs = base(eng, st)
            for s in outs:
                if self.level:
                    t = [F(0)]
                    for w in self.ws:
                        t.append(t[-1] + w)
                    s.heap[(L("_t"), "#items")] = mk("list", *map(tm.lin_const, t[:-1]))
                    s.heap[(ENV, "_now")] = tm.lin_const(t[-1])
                elif self.weights:
                    s.heap[(L("_weight"), "#items")] = mk("list", *map(const, self.ws))
            return outs

        return f


def h_sorted(eng, st, recv, pos, kw, node):
    """sorted(): stable, one outcome per order of the keys that is possible"""
    items = eng.known_items(pos[0], st) if pos else None
    rev = kw.get("reverse", FALSE)
    if items is None or rev not in (TRUE, FALSE):
        return None
    key = kw.get("key", NONE)
    outs = [(st, [])]
    for it in items:
        nx = []
        for s, acc in outs:
            for s2, kv in eng.call_term(key, [it], {}, s, node) if key is not NONE else [(s, it)]:
                for y, i in place(eng, s2, kv, acc, rev is TRUE, 0):
                    nx.append((y, acc[:i] + [(kv, it)] + acc[i:]))
        outs = nx
    res = []
    for s, acc in outs:
        s, t = eng.fresh("list", s, node)
        s.heap[(t, "#items")] = mk("list", *(x for _, x in acc))
        res.append((s, t))
    return res


def h_sort(eng, st, recv, pos, kw, node):
    """list.sort(): the list itself changes"""
    if recv.op != "new" or st.heap.get((recv, "#items")) is None:
        return None
    outs = h_sorted(eng, st, None, [recv], kw, node)
    if outs is None:
        return None
    for s, t in outs:
        s.heap[(recv, "#items")] = s.heap[(t, "#items")]
    return [(s, NONE) for s, _ in outs]


SORT = {"sorted": h_sorted, ".sort": h_sort}


def keypairs(a, b):
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return list(zip(a.a, b.a))
    return [(a, b)]


def before(eng, s, ps):
    """[(state, a < b)] for keys that may be tuples"""
    (a, b), rest = ps[0], ps[1:]
    out = []
    for y, v in eng.assume2(cmp_lt(a, b), s):
        if v or not rest:
            out.append((y, v))
            continue
        for z, e in eng.assume2(cmp_eq(a, b), y):
            out += before(eng, z, rest) if e else [(z, False)]
    return out


def place(eng, s, kv, acc, rev, i):
    if i == len(acc):
        return [(s, i)]
    out = []
    ps = keypairs(kv, acc[i][0])
    for y, v in before(eng, s, [(b, a) for a, b in ps] if rev else ps):
        out += [(y, i)] if v else place(eng, y, kv, acc, rev, i + 1)
    return out


def oracle(w, q, ex0, how):
    """the percentile, as {index of value: factor}, or None for nan"""
    xs = [(i, F(w.ws[i])) for i in w.order if not (ex0 and i == w.zero)]
    if not xs:
        return None
    if q <= 0:
        return {xs[0][0]: F(1)}
    if q >= 100:
        return {xs[-1][0]: F(1)}
    if len(xs) == 1:
        return {xs[0][0]: F(1)}
    q = F(q) / 100
    if w.level or w.weights:
        tot, cum = sum(v for _, v in xs), F(0)
        for n, (i, v) in enumerate(xs):
            cum += v
            if cum / tot > q:
                return {i: F(1)}
            if cum / tot == q:
                j = xs[n + 1][0]
                return {"lower": {i: F(1)}, "higher": {j: F(1)}}.get(how, {i: F(1, 2), j: F(1, 2)})
    pos = q * (len(xs) - 1)
    k = int(pos)
    fr = pos - k
    i, j = xs[k][0], xs[k + 1][0]
    if how == "linear":
        return {a: f for a, f in ((i, 1 - fr), (j, fr)) if f}
    if how == "midpoint":
        return {i: F(1, 2), j: F(1, 2)}
    return {i if how == "lower" or how == "nearest" and fr <= F(1, 2) else j: F(1)}


def term(d):
    r = const(0)
    for i, f in d.items():
        r = tm.add(r, tm.mul(tm.lin_const(f), X(i)))
    return r


def plain(t):
    """built from the values alone"""
    return isnan(t) or all(x.op in ("lin", "prod", "div", "const", "num") or x.op == "sym" for x in subterms(t))


KNOWN = ("lin", "prod", "div", "const", "sym", "cmp", "attr", "new", "kw", "tuple", "glob", "idx")


def resolved(p):
    """nothing on the path depends on something the analysis could not follow"""
    for f in p.facts:
        if f.op == "cmp" and f.a[0] in ("isinst", "truthy"):
            continue
        if any(x.op not in KNOWN for x in subterms(f)):
            return False
    return True


def grid(ctx):
    thorough = ctx.tier != "quick"
    qs = [F(-5), F(20), F(25), F(100, 3), F(50), F(60), F(75), F(110)] if ctx.tier == "quick" else [F(-5), F(0), F(20), F(25), F(100, 3), F(50), F(60), F(75), F(80), F(100), F(110)]
    for k in (0, 1, 2, 3) + ((4,) if thorough else ()):
        orders = list(itertools.permutations(range(k)))
        if k == 3 and not thorough:
            orders = [(0, 1, 2), (2, 0, 1), (1, 2, 0)]
        if k == 4:
            orders = [(0, 1, 2, 3), (3, 1, 0, 2)]
        for o in orders:
            for zero in (None,) + ((0,) if k else ()):
                for q in qs if k != 4 else qs[2:8]:
                    yield Fixed(False, k, None, o, zero), q
                    if not k:
                        continue
                    for ws in ((1,) * k, (1, 3, 2, 1)[:k], (2, 1, 1, 4)[:k]):
                        yield Fixed(False, k, ws, o, zero), q
                        yield Fixed(True, k, ws, o, zero), q


def check(ctx):
    api = "Monitor.percentile"
    fi = ctx.m.get(api)
    if fi is None:
        return
    where = ctx.where(fi)
    for w, q in grid(ctx):
        for ex0 in (False, True) if w.zero is not None else (False,):
            hows = ("linear", "lower", "higher", "midpoint") + (() if w.level or w.weights else ("nearest",))
            if not 0 < q < 100 or ex0:
                hows = ("linear", "lower")
            for how in hows:
                _, ps = run(ctx, api, w, args={"q": tm.lin_const(q), "ex0": TRUE if ex0 else FALSE, "interpolation": const(how)}, key="pct", extra=SORT)
                d = oracle(w, q, ex0, how)
                label = f"{q} % of {w}" + (", without 0" if ex0 else "") + f", {how}"
                for p in ps:
                    ctx.count("percentiles")
                    if p.raised and resolved(p):
                        ctx.fail("percentile", api, f"({label}) fails with {p.outcome[1].name}", where, pathstr(p))
                    if p.raised:
                        continue
                    r = p.outcome[1]
                    if not plain(r) or not resolved(p):
                        ctx.count("percentiles not resolved")
                        continue
                    want = None if d is None else term(d)
                    ok = isnan(r) if d is None else not isnan(r) and equal(r, want, w)
                    ctx.check(ok, "percentile", api, f"({label}) gives {r!r}, {'nan' if d is None else want!r} required", where, pathstr(p))
                    ctx.check(unchanged2(p, w), "asking-changes-nothing", api, f"({label}) changes what was recorded", where, pathstr(p))
    values(ctx)
    api = "Monitor.median"
    fm = ctx.m.get(api)
    if fm is not None:
        for ex0, how in itertools.product((FALSE, TRUE), ("linear", "lower")):
            got = []

            def h(eng, st, recv, b, node, f2):
                st = eng.event(st, Ev("call", recv, f2.qual, args=b), node)
                return [(st, mk("sym", "the percentile"))]

            ps = ctx.paths(fm, key=f"median{ex0}{how}", args={"ex0": ex0, "interpolation": const(how)}, cls="Monitor", handlers={fi.qual: h})
            for p in ps:
                cs = [e for e in p.events if e.kind == "call" and e.name == fi.qual]
                if len(cs) != 1:
                    continue  # computed by itself
                a = cs[0].args
                ok = not p.raised and p.outcome[1] == mk("sym", "the percentile") and a.get("q") is const(50) and a.get("ex0") is ex0 and a.get("interpolation") is const(how)
                ctx.check(ok, "median", api, f"is not the percentile for 50 % with the same options: {dict(a)!r}", ctx.where(fm), pathstr(p))
    for bad, wtd in (("nearest", True), ("average", True), ("average", False)):
        w = Fixed(False, 2, (1, 2) if wtd else None)
        _, ps = run(ctx, "Monitor.percentile", w, args={"q": const(50), "ex0": FALSE, "interpolation": const(bad)}, key="pctbad", extra=SORT)
        for p in ps:
            ctx.check(p.raised and p.outcome[1].name == "ValueError", "percentile", api, f"interpolation '{bad}' is not refused for {w}", where, pathstr(p))


def equal(a, b, w):
    """the same formula, a value that is 0 left out"""
    n, _ = norm(tm.sub(a, b))
    z = None if w.zero is None else X(w.zero)
    return all(any(t is z for t, _ in m) for m in n)


def unchanged2(p, w):
    return p.heap.get((L("_x"), "#items")) == mk("list", *(X(i) for i in range(w.k)))


class Repeated(Fixed):
    """the values x0, x1, ... recorded in the given series, with repetitions"""

    def __init__(self, level, series, ws, order, zero=None):
        super().__init__(level, len(order), None, order, zero)
        self.series, self.sw = series, ws

    def __str__(self):
        return ("level" if self.level else "non level") + f", values {', '.join(f'x{i}' for i in self.series)}, weights {self.sw}, " + super().__str__().split("values ")[1]

    def pre(self, **kw):
        base = super().pre()

        def f(eng, st):
            outs = base(eng, st)
            for s in outs:
                s.heap[(L("_x"), "#items")] = mk("list", *(X(i) for i in self.series))
                if self.level:
                    t = [F(0)]
                    for w in self.sw:
                        t.append(t[-1] + w)
                    s.heap[(L("_t"), "#items")] = mk("list", *map(tm.lin_const, t[:-1]))
                    s.heap[(ENV, "_now")] = tm.lin_const(t[-1])
                else:
                    s.heap[(L("_t"), "#items")] = mk("list", *(const(0) for _ in self.series))
                    s.heap[(SELF, "_weight")] = L("_weight")
                    s.heap[(L("_weight"), "#items")] = mk("list", *map(const, self.sw))
            return outs

        return f

    def total(self, i):
        return sum(w for k, w in zip(self.series, self.sw) if k == i)


def h_float(eng, st, recv, pos, kw, node):
    return [(st, pos[0])] if len(pos) == 1 and pos[0].op in ("sym", "lin") else None


def values(ctx):
    """values(): each value that was recorded once, in order"""
    api = "Monitor.values"
    fi = ctx.m.get(api)
    if fi is None:
        return
    where = ctx.where(fi)
    series = ((0,), (0, 1), (0, 0), (0, 1, 0), (1, 0, 0, 2), (2, 1, 0))
    for level, ser, ex0, how in itertools.product((False, True), series, (False, True), ("value", "weight", "duration")):
        n = max(ser) + 1
        for order in list(itertools.permutations(range(n)))[:4]:
            for ws in ((1, 1, 1, 1), (1, 3, 1, 2)):
                w = Repeated(level, ser, ws[: len(ser)], order, 0 if ex0 else None)

                def h_total(eng, st, recv, b, node, f2):
                    v = b.get("value")
                    for i in range(n):
                        if v is X(i):
                            return [(st, const(w.total(i)))]
                    return None

                _, ps = run(ctx, api, w, args={"ex0": TRUE if ex0 else FALSE, "force_numeric": FALSE, "sort_on_weight": TRUE if how == "weight" else FALSE, "sort_on_duration": TRUE if how == "duration" else FALSE}, key="values", extra={**SORT, "float": h_float, "Monitor.value_weight": h_total, "Monitor.value_duration": h_total})
                label = f"{w}, sorted on {how}" + (", without 0" if ex0 else "")
                for p in ps:
                    ctx.count("lists of values")
                    if how == ("weight" if level else "duration"):
                        ctx.check(p.raised and p.outcome[1].name == "ValueError", "kind-of-monitor", api, f"({label}) is not refused", where, pathstr(p))
                        continue
                    if not resolved(p):
                        ctx.count("lists of values not resolved")
                        continue
                    if p.raised:
                        ctx.fail("values", api, f"({label}) fails with {p.outcome[1].name}", where, pathstr(p))
                        continue
                    r = p.outcome[1]
                    got = p.heap.get((r, "#items")) or (r if r.op == "list" else None)
                    if got is None:
                        ctx.count("lists of values not resolved")
                        continue
                    ids = [i for i in order if not (ex0 and i == w.zero)]
                    if how != "value":
                        ids.sort(key=lambda i: -w.total(i))
                    want = mk("list", *(X(i) for i in ids))
                    ctx.check(mk("list", *got.a) is want, "values", api, f"({label}) gives {got!r}, {want!r} required", where, pathstr(p))
