"""Numerical helpers: interpolation and evenly spaced values."""
import itertools
from lib.core import *
from lib.engine import Raise, Ev
from lib.ratio import same
from . import prop
from .monitor import assume

T0, T1, T, V0, V1 = (mk("sym", n) for n in ("t0", "t1", "t", "v0", "v1"))


def ordered(ts, extra=()):
    """facts for ts[0] < ts[1] < ... , all finite"""
    def pre(eng, st):
        facts = list(extra)
        for a, b in itertools.combinations(ts, 2):
            facts += [(cmp_lt(a, b), True), (cmp_eq(a, b), False), (cmp_lt(b, a), False)]
        for a in ts:
            facts += [(cmp_eq(a, INF), False), (cmp_lt(a, INF), True), (cmp_eq(a, NONE), False)]
        outs = [st]
        for a, v in facts:
            outs = [y for x in outs for y in assume(x, a, v)]
        return outs

    return pre


def linear(t, t0, t1, v0, v1):
    return tm.add(v0, tm.div(tm.mul(tm.sub(v1, v0), tm.sub(t, t0)), tm.sub(t1, t0)))


def is_text_list(p, r):
    it = p.heap.get((r, "#items"), r) if r is not None else None
    return list(it.a) if it is not None and it.op in ("list", "tuple") else None


@prop("C47")
def c47(ctx):
    m = ctx.m
    fi = m.need("interpolate")
    where = ctx.where(fi)
    names = fi.posargs[:5]
    diff = [(cmp_eq(V0, V1), False), (cmp_eq(V0, NONE), False), (cmp_eq(V1, NONE), False)]
    diff += [(mk("cmp", "isinst", v, ("list", "tuple")), False) for v in (V0, V1)]
    cases = []
    for a, b, va, vb in ((T0, T1, V0, V1), (T1, T0, V1, V0)):
        cases += [([T, a, b], T, va, "before the first"), ([a, b], a, va, "at the first"), ([a, T, b], T, None, "between"), ([a, b], b, vb, "at the last"), ([a, b, T], T, vb, "after the last")]
    for order, t, want, label in cases:
        args = dict(zip(names, (t, T0, T1, V0, V1)))
        for p in ctx.paths(fi, key=f"ip{label}{order}", args=args, pre=ordered(order, diff), handlers={}, yieldless=None):
            if any(v and "isinstance" in repr(f) for f, v in p.facts.items()):
                continue
            ctx.count("interpolations")
            r = p.outcome[1]
            what = f"({label}, t0 {'<' if order.index(T0) < order.index(T1) else '>'} t1)"
            ok = not p.raised and (r is want if want is not None else same(r, linear(T, T0, T1, V0, V1)))
            ctx.check(ok, "interpolation", fi.qual, f"{what} gives {r!r}", where, pathstr(p))
    ctx.floor("interpolations", 8)
    # --- the same for each of the values of a list
    for kind in ("list", "tuple"):
        L0, L1 = (mk("new", kind, f"values {i}") for i in range(2))
        xs = [[mk("sym", f"v{i}{j}") for j in range(2)] for i in range(2)]
        no = [(cmp_eq(a, b), False) for a, b in zip(*xs)] + [(cmp_eq(L0, L1), False)] + [(cmp_eq(a, NONE), False) for a in xs[0] + xs[1]]
        base = ordered([T0, T, T1], no)

        def pre(eng, st):
            st.heap[(L0, "#items")] = mk("list", *xs[0])
            st.heap[(L1, "#items")] = mk("list", *xs[1])
            return base(eng, st)

        for p in ctx.paths(fi, key="ip" + kind, args=dict(zip(names, (T, T0, T1, L0, L1))), pre=pre, handlers={"isinstance": h_kind}, yieldless=None, unroll_known=6):
            got = is_text_list(p, p.outcome[1]) if not p.raised else None
            ctx.count("interpolated lists")
            if got is None and not p.raised:
                continue
            ok = got is not None and len(got) == 2 and all(same(g, linear(T, T0, T1, a, b)) for g, a, b in zip(got, *xs))
            ctx.check(ok, "interpolation", fi.qual, f"the values of a {kind} become {got!r}", where, pathstr(p))
    # --- evenly spaced values
    fi = m.need("linspace")
    A, B = mk("sym", "start"), mk("sym", "stop")
    for n, end in itertools.product(range(5), (True, False)):
        args = dict(zip(fi.posargs[:4], (A, B, const(n), TRUE if end else FALSE)))
        for p in ctx.paths(fi, key="lin", args=args, handlers={}, yieldless=None, unroll_known=8, pre=ordered([A, B])):
            got = is_text_list(p, p.outcome[1]) if not p.raised else None
            ctx.count("spaces")
            want = [A if i == 0 else tm.add(A, tm.div(tm.mul(tm.sub(B, A), const(i)), const(n - 1 if end else n))) for i in range(n)]
            ok = got is not None and len(got) == n and all(same(g, w) for g, w in zip(got, want))
            ctx.check(ok, "evenly-spaced", fi.qual, f"{n} values {'with' if end else 'without'} endpoint: {got!r}", ctx.where(fi), pathstr(p))
    ctx.floor("spaces", 10)
    # --- interpolation in a table
    fi = m.need("interp")
    X = mk("sym", "x")
    for k in (1, 2, 3):
        xp, fp = [mk("sym", f"x{i}") for i in range(k)], [mk("sym", f"f{i}") for i in range(k)]
        XP, FP = mk("new", "list", "xp"), mk("new", "list", "fp")
        L, R = mk("sym", "left"), mk("sym", "right")
        for pos, given in itertools.product(range(2 * k + 1), range(4)):
            if pos % 2:
                order, x = list(xp), xp[pos // 2]
            else:
                order, x = xp[: pos // 2] + [X] + xp[pos // 2:], X
            lo, hi = L if given & 1 else NONE, R if given & 2 else NONE
            base = ordered(order, [(cmp_eq(L, NONE), False), (cmp_eq(R, NONE), False)] + [(mk("cmp", "isinst", f, ("list", "tuple")), False) for f in fp])

            def pre(eng, st, xp=xp, fp=fp):
                st.heap[(XP, "#items")] = mk("list", *xp)
                st.heap[(FP, "#items")] = mk("list", *fp)
                return base(eng, st)

            def bis(right, order=order, x=x):
                def h(eng, st, recv, ps, kw, node):
                    if len(ps) != 2 or ps[0] is not XP or ps[1] is not x:
                        return None
                    n = [o for o in order if o in xp]
                    i = order.index(x)
                    c = sum(1 for o in order[:i] if o in n) + (1 if right and x in n else 0)
                    return [(st, const(c))]

                return h

            hs = {"bisect.bisect_right": bis(True), "bisect.bisect_left": bis(False), "bisect.bisect": bis(True)}
            args = dict(zip(fi.posargs[:5], (x, XP, FP, lo, hi)))
            for p in ctx.paths(fi, key=f"interp{order}{pos}", args=args, pre=pre, handlers=hs, yieldless=None, unroll_known=6):
                if any(v and "isinstance" in repr(f) for f, v in p.facts.items()):
                    continue
                ctx.count("table lookups")
                if pos % 2:
                    want = fp[pos // 2]
                elif pos == 0:
                    want = L if given & 1 else fp[0]
                elif pos == 2 * k:
                    want = R if given & 2 else fp[-1]
                else:
                    i = pos // 2
                    want = linear(X, xp[i - 1], xp[i], fp[i - 1], fp[i])
                r = p.outcome[1]
                ctx.check(not p.raised and (r is want or same(r, want)), "table", fi.qual, f"{x!r} in {order!r} gives {r!r}, {want!r} required", ctx.where(fi), pathstr(p))
    ctx.floor("table lookups", 20)


def h_kind(eng, st, recv, pos, kw, node):
    if len(pos) == 2 and pos[0].op == "new" and pos[0].a[0] in ("list", "tuple"):
        t = repr(pos[1])
        return [(st, TRUE if pos[0].a[0] in t else FALSE)]
    return None
