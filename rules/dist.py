"""Distributions: what a sample is made of.

A distribution is created with symbolic parameters (all paths of the constructor), and then sampled and asked for its mean
(all paths). A draw from a random stream is an atom with the location and scale taken out, so that the result is a formula
that can be compared with the documented one, wherever in the code the time unit is applied.
"""
import ast
import itertools
from lib.core import *
from lib.engine import and_facts, Raise, Ev, Engine
from lib.ratio import same, ratio_const
from . import prop
from .resource import A
from .monitor import assume, lst

RANDOM = mk("glob", "random")
STREAM = mk("sym", "arg:randomstream")
TU, DENV = mk("sym", "arg:time_unit"), mk("sym", "arg:env")


def sym(n):
    return mk("sym", "arg:" + n)


def draw(kind, *a):
    return mk("pure", "draw", kind, *a)


def arg(pos, kw, i, name, default=None):
    return pos[i] if i < len(pos) else kw.get(name, default)


DRAWS = {
    "expovariate": (("lambd",), (1,), lambda l: tm.div(draw("exponential"), l)),
    "normalvariate": (("mu", "sigma"), (0, 1), lambda m, s: tm.add(m, tm.mul(s, draw("normal")))),
    "gauss": (("mu", "sigma"), (0, 1), lambda m, s: tm.add(m, tm.mul(s, draw("gauss")))),
    "uniform": (("a", "b"), (), lambda a, b: tm.add(a, tm.mul(tm.sub(b, a), draw("random")))),
    "triangular": (("low", "high", "mode"), (0, 1, None), lambda l, h, m: draw("triangular", l, h, m)),
    "weibullvariate": (("alpha", "beta"), (), lambda a, b: tm.mul(a, draw("weibull", b))),
    "gammavariate": (("alpha", "beta"), (), lambda a, b: tm.mul(b, draw("gamma", a))),
    "betavariate": (("alpha", "beta"), (), lambda a, b: draw("beta", a, b)),
    "randint": (("a", "b"), (), lambda a, b: draw("integer", a, b)),
    "random": ((), (), lambda: draw("random")),
}


def h_draw(name):
    names, defaults, make = DRAWS[name]

    def h(eng, st, recv, pos, kw, node):
        if recv is None:
            recv = RANDOM
        vals = []
        for i, n in enumerate(names):
            v = arg(pos, kw, i, n, None)
            if v is None and i < len(defaults):
                v = NONE if defaults[i] is None else const(defaults[i])
            if v is None:
                return None
            vals.append(v)
        t = make(*vals)
        st = eng.event(st, Ev("draw", recv, name, value=t), node)
        return [(st, t)]

    return h


OPS = {"ge": ast.GtE, "gt": ast.Gt, "le": ast.LtE, "lt": ast.Lt, "eq": ast.Eq, "ne": ast.NotEq}
ARITH = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "pow": ast.Pow}


def h_op(op):
    def h(eng, st, recv, pos, kw, node):
        return eng.compare(op(), pos[0], pos[1], st, node)

    return h


def h_arith(op):
    def h(eng, st, recv, pos, kw, node):
        return [(st, eng.binop(op(), pos[0], pos[1]))]

    return h


def h_lookup(eng, st, recv, b, node, fi):
    return [(st, mk("pure", "seconds in", next(iter(b.values()))))]


def handlers():
    h = {"." + n: h_draw(n) for n in DRAWS}
    h.update({"random." + n: h_draw(n) for n in DRAWS})
    h.update({"operator." + n: h_op(o) for n, o in OPS.items()})
    h.update({"operator." + n: h_arith(o) for n, o in ARITH.items()})
    h["_time_unit_lookup"] = h_lookup
    return h


def chain(p):
    """continue where another path ended"""

    def pre(eng, st):
        st.heap.update(p.heap)
        st.facts, st.iv, st.uniq = p.st.facts, p.st.iv, p.st.uniq + 50
        return [st]

    return pre


def factor(tu, env):
    if tu is NONE:
        return const(1)
    return tm.div(A(A(mk("glob", "g"), "default_env") if env is NONE else env, "_time_unit"), mk("pure", "seconds in", tu))


class Dist:
    """what is documented: parameters, when they are refused, the formulas of sample and mean"""

    def __init__(self, cls, given, sample, mean, bad=(), time=True, refused=None, extra=None):
        self.cls, self.given, self.sample, self.mean, self.bad, self.time, self.refused, self.extra = cls, given, sample, mean, bad, time, refused, extra or {}


def le(a, b):
    return cmp_lt(b, a, True), False  # not b < a


def half(a, b):
    return tm.div(tm.add(a, b), const(2))


def specs():
    z = const(0)
    m, r, sd, cv = sym("mean"), sym("rate"), sym("standard_deviation"), sym("coefficient_of_variation")
    lo, hi = sym("lowerbound"), sym("upperbound")
    inv = lambda t: tm.div(const(1), t)
    yield Dist("Exponential", ("mean",), tm.mul(m, draw("exponential")), m, [le(m, z)])
    yield Dist("Exponential", ("rate",), tm.div(draw("exponential"), r), inv(r), [le(r, z)])
    yield Dist("Exponential", ("mean", "rate"), None, None, refused="TypeError")
    yield Dist("Exponential", (), None, None, refused="TypeError")
    for g, k in ((FALSE, "normal"), (TRUE, "gauss")):
        yield Dist("Normal", ("mean", "standard_deviation"), tm.add(m, tm.mul(sd, draw(k))), m, [(cmp_lt(sd, z), True)], extra={"use_gauss": g})
        s2 = tm.mul(cv, m)
        yield Dist("Normal", ("mean", "coefficient_of_variation"), tm.add(m, tm.mul(s2, draw(k))), m, [(cmp_eq(m, z), True), (cmp_lt(s2, z), True)], extra={"use_gauss": g})
        yield Dist("Normal", ("mean",), m, m, extra={"use_gauss": g})
    yield Dist("Normal", ("mean", "standard_deviation", "coefficient_of_variation"), None, None, refused="TypeError")
    yield Dist("Uniform", ("lowerbound", "upperbound"), tm.add(lo, tm.mul(tm.sub(hi, lo), draw("random"))), half(lo, hi), [(cmp_lt(hi, lo), True)])
    yield Dist("Uniform", ("lowerbound",), lo, lo)
    ints = [(cmp_eq(x, mk("pure", "int", x)), False) for x in (lo, hi)]
    yield Dist("IntUniform", ("lowerbound", "upperbound"), draw("integer", lo, hi), half(lo, hi), [(cmp_lt(hi, lo), True)] + ints)
    yield Dist("IntUniform", ("lowerbound",), draw("integer", lo, lo), lo, ints[:1])
    l, h, md = sym("low"), sym("high"), sym("mode")
    third = lambda a, b, c: tm.div(tm.add(a, tm.add(b, c)), const(3))
    tri = [(cmp_lt(h, l), True), (cmp_lt(md, l), True), (cmp_lt(h, md), True)]
    yield Dist("Triangular", ("low", "high", "mode"), ("triangular", l, h, md), third(l, h, md), tri)
    mid = half(l, h)
    yield Dist("Triangular", ("low", "high"), ("triangular", l, h, mid), mid, tri[:1])
    yield Dist("Triangular", ("low",), ("triangular", l, l, l), l)
    v = sym("value")
    yield Dist("Constant", ("value",), v, v)
    sc, sh = sym("scale"), sym("shape")
    yield Dist("Weibull", ("scale", "shape"), tm.mul(sc, draw("weibull", sh)), ("gamma", sc, sh), [le(sh, z)])
    shape_int = [(cmp_eq(mk("pure", "int", sh), sh), False)]
    for cls, extra in (("Gamma", []), ("Erlang", shape_int)):
        yield Dist(cls, ("shape", "scale"), tm.mul(sc, draw("gamma", sh)), tm.mul(sh, sc), [le(sh, z), le(sc, z)] + extra)
        yield Dist(cls, ("shape", "rate"), tm.div(draw("gamma", sh), r), tm.div(sh, r), [le(sh, z), le(r, z)] + extra)
        yield Dist(cls, ("shape",), None, None, [le(sh, z)] + extra, refused=True)
        yield Dist(cls, ("shape", "scale", "rate"), None, None, [le(sh, z)] + extra, refused=True)
    al, be = sym("alpha"), sym("beta")
    yield Dist("Beta", ("alpha", "beta"), draw("beta", al, be), tm.div(al, tm.add(al, be)), [le(al, z), le(be, z)], time=False)
    yield Dist("Poisson", ("mean",), ("poisson", m), m, [le(m, z)], time=False, extra={"prefer_numpy": FALSE})


def truth_of(p, lit):
    a, v = lit
    r = implied(p.facts, a)
    return None if r is None else r == v


def is_formula(t, want, f):
    """t is f times the wanted formula"""
    if isinstance(want, tuple):
        kind = want[0]
        if kind == "triangular":
            for s in subterms(t):
                if s.op == "pure" and s.a[:2] == ("draw", "triangular"):
                    got = s.a[2:]
                    md = half(got[0], got[1]) if got[2] is NONE else got[2]
                    got = (got[0], got[1], md)
                    if all(same(x, y) for x, y in zip(got, want[1:])) and same(t, tm.mul(f, s)):
                        return True
                    if all(same(x, tm.mul(f, y)) for x, y in zip(got, want[1:])) and same(t, s):
                        return True
            return same(want[1], want[2]) and same(t, tm.mul(f, want[1]))
        if kind == "gamma":
            sc, sh = want[1:]
            for s in subterms(t):
                if s.op == "pure" and s.a[0].split(".")[-1] == "gamma" and same(s.a[1], tm.add(const(1), tm.div(const(1), sh))):
                    return same(t, tm.mul(f, tm.mul(sc, s)))
            return False
    return same(t, tm.mul(f, want))


def draws(p):
    return [e for e in p.events if e.kind == "draw"]


def stream_ok(p, stream):
    return all(e.base is stream for e in draws(p))


def method(ctx, cls, name):
    fi = ctx.m.method(cls, name)
    if fi is None:
        raise AnalysisBroken(f"{cls}.{name} not found")
    return fi


def params(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


def parametric(ctx):
    for d in specs():
        init = method(ctx, d.cls, "__init__")
        names = params(init)
        units = [(NONE, NONE), (TU, NONE), (TU, DENV)] if d.time else [(NONE, NONE)]
        for (tu, env), stream in itertools.product(units, (NONE, STREAM)):
            args = {n: NONE for n in names}
            args.update({n: sym(n) for n in d.given if n in names})
            args.update({k: v for k, v in d.extra.items() if k in names})
            for n, v in (("time_unit", tu), ("env", env), ("randomstream", stream)):
                if n in names:
                    args[n] = v
            notnone = [t for t in args.values() if t.op == "sym"]

            def pre(eng, st):
                st.uniq = 10
                outs = [st]
                for t in notnone:
                    outs = [y for x in outs for y in assume(x, cmp_eq(t, NONE), False)]
                if env is not NONE:
                    outs = [y for x in outs for y in assume(x, cmp_eq(A(env, "_time_unit"), NONE), False)]
                return outs

            api = d.cls
            label = "given " + (", ".join(d.given) or "nothing") + ("" if tu is NONE else ", time_unit") + ("" if env is NONE else ", env") + ("" if stream is NONE else ", randomstream")
            key = f"dist{d.given}{tu}{env}{stream}{d.extra}"
            for p in ctx.paths(init, key=key, args=args, cls=d.cls, handlers=handlers(), pre=pre):
                where = ctx.where(init)
                inv = [truth_of(p, b) for b in d.bad]
                if p.raised:
                    ctx.count("refusals")
                    if stream is not NONE and implied(p.facts, mk("cmp", "isinst", stream, ("Random",))) is False:
                        continue
                    if tu is not NONE and p.outcome[1].name in ("AttributeError", "ValueError") and True not in inv and d.refused is None:
                        e = A(mk("glob", "g"), "default_env") if env is NONE else env
                        lack = implied(p.facts, cmp_eq(e, NONE)) is True or implied(p.facts, cmp_eq(A(e, "_time_unit"), NONE)) is True
                        ctx.check(lack and p.outcome[1].name == "AttributeError", "valid-accepted", api, f"({label}) refuses valid parameters with {p.outcome[1].name}", where, pathstr(p))
                        continue
                    if d.refused:
                        ctx.check(p.outcome[1].name in ("TypeError", "ValueError", "AttributeError"), "invalid-refused", api, f"({label}) fails with {p.outcome[1].name}", where, pathstr(p))
                        continue
                    ctx.check(True in inv, "valid-accepted", api, f"({label}) refuses parameters that are valid", where, pathstr(p))
                    ctx.check(p.outcome[1].name in ("ValueError", "TypeError"), "invalid-refused", api, f"({label}) fails with {p.outcome[1].name}", where, pathstr(p))
                    continue
                if not ctx.check(d.refused is None, "invalid-refused", api, f"({label}) is accepted", where, pathstr(p)):
                    continue
                for b, v in zip(d.bad, inv):
                    ctx.check(v is False, "invalid-refused", api, f"({label}) accepts parameters for which {b[0]!r} is {b[1]}", where, pathstr(p))
                f = factor(tu, env)
                s = RANDOM if stream is NONE else stream
                ctx.check(draws(p) == [], "creation-draws-nothing", api, f"({label}) creating the distribution takes a random number", where, pathstr(p))
                for name, want in (("sample", d.sample), ("mean", d.mean)):
                    fi = method(ctx, d.cls, name)
                    if isinstance(want, tuple) and want[0] == "poisson":
                        poisson(ctx, d, fi, p, key, s)
                        continue
                    for q in ctx.paths(fi, key=key + name + str(id(p)), cls=d.cls, handlers=handlers(), pre=chain(p)):
                        ctx.count("formulas")
                        w = ctx.where(fi)
                        if q.raised:
                            ctx.fail("formula", f"{api}.{name}", f"({label}) fails with {q.outcome[1].name}", w, pathstr(q))
                            continue
                        ctx.check(is_formula(q.outcome[1], want, f), "formula", f"{api}.{name}", f"({label}) gives {q.outcome[1]!r}; {f!r} * {want!r} required", w, pathstr(q))
                        ctx.check(stream_ok(q, s), "stream", f"{api}.{name}", f"({label}) draws from {[e.base for e in draws(q)]!r} instead of {s!r}", w, pathstr(q))
                        n = len(draws(q))
                        ctx.check(n == 0 if name == "mean" else n <= 1, "one-draw", f"{api}.{name}", f"({label}) takes {n} random numbers", w, pathstr(q))
                        changed = [e for e in q.events if e.kind == "write" and e.base is SELF]
                        ctx.check(not changed, "sampling-keeps-parameters", f"{api}.{name}", f"({label}) changes {changed[:1]!r}", w, pathstr(q))


def poisson(ctx, d, fi, p, key, stream):
    """n is returned when the cumulative probability of n-1 is less than the random number, and that of n is not"""
    api = d.cls + ".sample"
    k = 2 if ctx.tier == "quick" else 3
    m = d.given and sym("mean")
    fb = [f for f in ctx.m.classes["Poisson"].methods.values() if "fallback" in f.node.name]
    h = handlers()

    def exponential(eng, st, recv, pos, kw, node):
        return [(st, mk("pure", "exp", *pos))]

    h["math.exp"] = exponential
    for f in fb:
        h[f.qual] = lambda eng, st, recv, b, node, fi2: [(st, mk("sym", "fallback"))]
    seen = set()
    for q in ctx.paths(fi, key=key + "sample" + str(id(p)), cls=d.cls, handlers=h, pre=chain(p), while_k=k):
        ctx.count("formulas")
        w = ctx.where(fi)
        if q.raised:
            ctx.fail("formula", api, f"fails with {q.outcome[1].name}", w, pathstr(q))
            continue
        r = q.outcome[1]
        if r is mk("sym", "fallback"):
            continue
        ctx.check(stream_ok(q, stream), "stream", api, f"draws from {[e.base for e in draws(q)]!r} instead of {stream!r}", w, pathstr(q))
        if not ctx.check(tm.is_num_const(r) and len(draws(q)) == 1, "formula", api, f"gives {r!r} from {len(draws(q))} random numbers", w, pathstr(q)):
            continue
        n = int(tm.num_value(r))
        seen.add(n)
        u = draw("random")
        e0 = mk("pure", "exp", tm.neg(m))
        term, cum, cums = e0, e0, [e0]
        for j in range(1, n + 1):
            term = tm.mul(term, tm.div(m, const(j)))
            cum = tm.add(cum, term)
            cums.append(cum)
        ctx.check(below(q, cums[n], u) is False, "formula", api, f"{n} is given without establishing that its cumulative probability is not less than the random number", w, pathstr(q))
        if n:
            ctx.check(below(q, cums[n - 1], u) is True, "formula", api, f"{n} is given without establishing that the cumulative probability of {n - 1} is less than the random number", w, pathstr(q))
    ctx.check(seen >= set(range(k)), "formula", api, f"gives only {sorted(seen)} in {k} steps", ctx.where(fi))


def below(p, a, b, strict=True):
    """truth of a < b (a <= b) on the path; comparisons are matched up to the way the two formulas are written"""
    lit = cmp_lt(a, b, strict)
    v = implied(p.facts, lit)
    if v is not None:
        return v
    d = tm.sub(a, b)
    for atom, val in p.facts.items():
        if atom.op != "cmp" or atom.a[0] not in ("lt", "le"):
            continue
        f = tm.add(atom.a[1], tm.lin_const(atom.a[2]))
        st = atom.a[0] == "lt"
        k = ratio_const(f, d)
        if k is None:
            continue
        if k > 0:  # a - b < 0 or <= 0
            if val and (st or not strict):
                return True
            if not val and (not st or strict):
                return False
        else:  # b - a < 0 or <= 0
            if val and (st or strict):
                return False
            if not val and (not st or not strict):
                return True
    return None


@prop("C24")
def c24(ctx):
    parametric(ctx)
    ctx.floor("formulas", 200)
    ctx.floor("refusals", 100)


# ------------------------------------------------------------------ tables of values


class Entry:
    """a value in a table: a number, a distribution, or something else"""

    def __init__(self, kind, i):
        self.kind, self.i = kind, i
        self.x = mk("sym", f"x{i} ({kind})")
        self.sample = mk("sym", f"sample of x{i}") if kind == "distribution" else self.x
        self.mean = mk("sym", f"mean of x{i}") if kind == "distribution" else self.x


def isdist(t):
    return mk("cmp", "isinst", t, ("_Distribution",))


def table_handlers(es, eng_facts=True):
    h = handlers()
    by = {e.x: e for e in es}

    def h_float(eng, st, recv, pos, kw, node):
        t = pos[0] if pos else None
        if t in by and by[t].kind != "number":
            return [(st, Raise("ValueError", node.lineno, st.fn)), ] if by[t].kind == "other" else [(st, Raise("TypeError", node.lineno, st.fn))]
        return [(st, t)]

    def h_sample(eng, st, recv, pos, kw, node):
        if recv in by and not pos and not kw:
            if by[recv].kind != "distribution":
                return [(st, Raise("AttributeError", node.lineno, st.fn))]
            st = eng.event(st, Ev("sampled", recv, "sample"), node)
            return [(st, by[recv].sample)]
        if recv.op == "pure" and recv.a[0] == "pick" and not pos:
            st = eng.event(st, Ev("sampled", recv, "sample"), node)
            return [(st, mk("pure", "sample of", recv))]
        if pos:
            kn = eng.known_items(pos[0], st)
            k = arg(pos, kw, 1, "k")
            if kn is None or k is None:
                return None
            t0 = mk("pure", "pick", mk("tuple", *kn), k)
            st = eng.event(st, Ev("draw", RANDOM if recv is None else recv, "sample", value=t0), node)
            n = int(tm.num_value(k)) if tm.is_num_const(k) else None
            if n is None:
                return [(st, t0)]
            st, t = eng.fresh("list", st, node)
            st.heap[(t, "#items")] = mk("list", *(mk("pure", "pick", mk("tuple", *kn), k, j) for j in range(n)))
            return [(st, t)]
        return None

    def h_choice(eng, st, recv, pos, kw, node):
        kn = eng.known_items(pos[0], st) if pos else None
        if kn is None:
            return None
        t = mk("pure", "pick", mk("tuple", *kn), const(1), 0)
        st = eng.event(st, Ev("draw", RANDOM if recv is None else recv, "choice", value=t), node)
        return [(st, t)]

    def h_mean(eng, st, recv, pos, kw, node):
        if recv in by and by[recv].kind == "distribution":
            return [(st, by[recv].mean)]
        return None

    def h_random(eng, st, recv, pos, kw, node):
        st = eng.event(st, Ev("draw", RANDOM if recv is None else recv, "random", value=R), node)
        return [(st, R)]

    h.update({"float": h_float, ".sample": h_sample, "random.sample": h_sample, ".choice": h_choice, "random.choice": h_choice, ".mean": h_mean, ".random": h_random, "random.random": h_random})
    return h


R = draw("random")


def pick_of(t):
    return t.op == "pure" and t.a[0] == "pick"


def scaled(x):
    return (x, tm.mul(x, factor(TU, DENV)), tm.mul(x, factor(TU, NONE)))


def table_pre(es, facts, lists):
    def pre(eng, st):
        st.uniq = 10
        for name, items in lists.items():
            t = mk("new", "list", name)
            st.heap[(t, "#items")] = mk("list", *items)
        outs = [st]
        fs = [(isdist(e.x), e.kind == "distribution") for e in es] + [(mk("cmp", "isinst", y, ("list", "tuple")), False) for e in es for y in scaled(e.x)] + [(cmp_eq(e.x, NONE), False) for e in es]
        fs += [(cmp_lt(R, const(0)), False), (cmp_lt(R, const(1)), True)] + list(facts)
        for a, v in fs:
            outs = [y for x in outs for y in assume(x, a, v)]
        return outs

    return pre


def tsum(ts):
    r = const(0)
    for t in ts:
        r = tm.add(r, t)
    return r


def equal_all(q, ps):
    grp = list(range(len(ps)))
    for i, x in enumerate(ps):
        for j in range(i):
            if x is ps[j] or implied(q.facts, cmp_eq(x, ps[j])) is True:
                grp = [grp[i] if g == grp[j] else g for g in grp]
    return len(set(grp)) <= 1


def impossible(q, C):
    """comparisons on the path that contradict that C is a nondecreasing table of finite numbers with 0 before and 1 at the end"""
    z = [const(0)] + list(C)
    for i in range(len(z)):
        for j in range(i):
            if below(q, z[i], z[j]) is True:
                return True
        if implied(q.facts, cmp_eq(z[i], INF)) is True:
            return True
        if i and below(q, const(1), z[i]) is True:
            return True
    return False


def kinds(ctx, k):
    for ks in itertools.product(("number", "distribution", "other"), repeat=k):
        if ctx.tier == "quick" and k > 1 and len(set(ks)) == 1 and ks[0] != "number":
            continue
        yield ks


def tables(ctx):
    top = 2 if ctx.tier == "quick" else 3
    for cls in ("Pdf", "Pmf", "CumPdf", "CumPmf"):
        cum = cls.startswith("Cum")
        init = method(ctx, cls, "__init__")
        pname = "cumprobabilities" if cum else "probabilities"
        for k in (1, 2, 3):
            for ks, (tu, env), stream in itertools.product(kinds(ctx, k), ((NONE, NONE), (TU, DENV)), (NONE, STREAM)):
                if set(ks) != {"number"} and (stream is not NONE):
                    continue
                if k > top and (set(ks) != {"number"} or stream is not NONE or tu is not NONE):
                    continue
                es = [Entry(kd, i) for i, kd in enumerate(ks)]
                P = [mk("sym", f"p{i}") for i in range(k)]
                for form in ("pairs", "two lists") + (("dict", "equal") if not cum else ()):
                    if form != "pairs" and (tu is not NONE or stream is not NONE):
                        continue
                    one_table(ctx, cls, cum, init, pname, k, es, P, form, tu, env, stream)


def one_table(ctx, cls, cum, init, pname, k, es, P, form, tu, env, stream):
    xs = [e.x for e in es]
    spec, ps = mk("new", "list", "spec"), NONE
    lists = {"spec": [t for x, p in zip(xs, P) for t in (x, p)]}
    extra = []
    if form != "pairs":
        lists = {"spec": xs, "probs": P}
        ps = mk("new", "list", "probs")
    if form == "equal":
        ps = mk("sym", "arg:probabilities")
        lists = {"spec": xs}
        P = [const(1)] * k
        extra = [(cmp_eq(ps, NONE), False), (mk("cmp", "truthy", mk("pure", "hasattr", ps, const("__iter__"))), False)]
    facts = list(extra)
    for t in (mk("new", "list", "spec"), mk("new", "list", "probs"), mk("new", "dict", "spec")):
        facts += [(mk("cmp", "truthy", mk("pure", "hasattr", t, const("__iter__"))), True), (mk("cmp", "truthy", t), True)]
    if tu is not NONE:
        facts += [(isdist(tm.mul(x, factor(tu, env))), False) for x in xs]
    for t in (tu, env, stream):
        if t is not NONE:
            facts.append((cmp_eq(t, NONE), False))
    if tu is not NONE:
        facts.append((cmp_eq(A(env, "_time_unit"), NONE), False))
    args = {"spec": spec, pname: ps, "time_unit": tu, "env": env, "randomstream": stream}
    pre0 = table_pre(es, facts, lists)

    def pre(eng, st):
        out = pre0(eng, st)
        if form == "dict":
            d = mk("new", "dict", "spec")
            for o in out:
                o.heap[(d, "#items")] = mk("list", *xs)
                for x, p in zip(xs, P):
                    o.heap[(d, ("[]", x))] = p
        return out

    if form == "dict":
        args["spec"] = mk("new", "dict", "spec")
        args[pname] = NONE
    hs = table_handlers(es)
    label = f"{form} of {', '.join(e.kind for e in es)}" + ("" if tu is NONE else ", time_unit") + ("" if stream is NONE else ", randomstream")
    key = f"table{label}"
    where = ctx.where(init)
    f = factor(tu, env)
    mixed = tu is not NONE and any(e.kind != "number" for e in es)
    total = P[-1] if cum else tsum(P)
    C = [tm.div(P[i] if cum else tsum(P[: i + 1]), total) for i in range(k)]
    for p in ctx.paths(init, key=key, args=args, cls=cls, handlers=hs, pre=pre, unroll_known=8):
        ctx.count("tables")
        zero = implied(p.facts, cmp_eq(total, const(0)))
        dec = cum and any(below(p, P[i], P[i - 1] if i else const(0)) is True for i in range(k))
        if p.raised:
            if stream is not NONE and implied(p.facts, mk("cmp", "isinst", stream, ("Random",))) is False:
                continue
            n = p.outcome[1].name
            if mixed:
                ctx.check(n in ("TypeError", "ValueError"), "invalid-refused", cls, f"({label}) fails with {n}", where, pathstr(p))
                continue
            if cum and not dec and zero is not True:
                # in terms of the increments
                dec = any(implied(p.facts, cmp_lt(tm.sub(P[i], P[i - 1] if i else const(0)), const(0))) is True for i in range(k))
            ctx.check(zero is True or dec, "valid-accepted", cls, f"({label}) refuses a valid table with {n}", where, pathstr(p))
            ctx.check(n in ("TypeError", "ValueError"), "invalid-refused", cls, f"({label}) fails with {n}", where, pathstr(p))
            continue
        if form != "equal":
            ctx.check(zero is False, "invalid-refused", cls, f"({label}) accepts a table without any probability", where, pathstr(p))
        if cum:
            for i in range(k):
                ctx.check(below(p, P[i], P[i - 1] if i else const(0)) is False, "invalid-refused", cls, f"({label}) accepts decreasing cumulative probabilities", where, pathstr(p))
        if not ctx.check(not mixed, "invalid-refused", cls, f"({label}) a time unit is accepted for values that are no numbers", where, pathstr(p)):
            continue
        want = tuple(tm.mul(e.x, f) if e.kind == "number" else e.x for e in es)
        s = RANDOM if stream is NONE else stream
        fi = method(ctx, cls, "mean")
        for q in ctx.paths(fi, key=key + str(id(p)), cls=cls, handlers=hs, pre=chain(p)):
            ctx.count("formulas")
            r = None if q.raised else q.outcome[1]
            if any(e.kind == "other" for e in es):
                from .monitor import isnan

                ctx.check(r is not None and isnan(r), "table-mean", cls + ".mean", f"({label}) gives {r!r}", ctx.where(fi), pathstr(q))
                continue
            inc = [tm.sub(P[i], P[i - 1]) if cum and i else P[i] for i in range(k)]
            m = tm.div(tsum(tm.mul(tm.mul(e.mean, f), i) for e, i in zip(es, inc)), total)
            ctx.check(r is not None and same(r, m), "table-mean", cls + ".mean", f"({label}) gives {r!r}, {m!r} required", ctx.where(fi), pathstr(q))
        fi = method(ctx, cls, "sample")
        ns = (NONE, const(1), const(k + 1), const(-1)) if not cum and "n" in params(fi) else (None,)
        for n in ns:
            for q in ctx.paths(fi, key=key + str(id(p)) + repr(n), args={} if n is None else {"n": n}, cls=cls, handlers=hs, pre=chain(p), unroll_known=8):
                if impossible(q, C):
                    continue
                ctx.count("samples")
                judge_pick(ctx, q, cls, label, n, es, want, P, C, s, cum, ctx.where(fi))


def judge_pick(ctx, q, cls, label, n, es, want, P, C, s, cum, where):
    api = cls + ".sample"
    ps = pathstr(q)
    ds = draws(q)
    ctx.check(all(e.base is s for e in ds), "stream", api, f"({label}) draws from {[e.base for e in ds]!r} instead of {s!r}", where, ps)
    eq = not cum and equal_all(q, P)
    if q.raised:
        nm = q.outcome[1].name
        ok = n not in (None, NONE) and nm == "ValueError" and (not eq or n is const(-1))
        ctx.check(ok, "table-sample", api, f"({label}, n={n!r}) fails with {nm}", where, ps)
        return
    r = q.outcome[1]
    if n not in (None, NONE):
        if not ctx.check(eq and n is not const(-1), "table-sample", api, f"({label}, n={n!r}) is accepted", where, ps):
            return
        m = min(int(tm.num_value(n)), len(es))
        items = q.heap.get((r, "#items"), r)
        ok = items.op in ("list", "tuple") and len(items.a) == m and len(set(items.a)) == m
        for t in items.a if ok else ():
            base = t.a[1] if t.op == "pure" and t.a[0] == "sample of" else t
            ok = ok and pick_of(base) and base.a[0] == "pick" and tuple(base.a[1].a) == want
            d = implied(q.facts, isdist(base))
            ok = ok and (d is True) == (t is not base)
        ctx.check(ok, "table-sample", api, f"({label}, n={n!r}) gives {items!r}", where, ps)
        return
    base = r.a[1] if r.op == "pure" and r.a[0] == "sample of" else r
    if pick_of(base):
        ctx.count(f"equal probabilities, {len(es)} values")
        ctx.check(eq, "table-sample", api, f"({label}) all values get the same probability without establishing that they have", where, ps)
        ctx.check(len(base.a[1].a) == len(want) and all(same(x, y) for x, y in zip(base.a[1].a, want)), "table-sample", api, f"({label}) picks from {base.a[1]!r}", where, ps)
        d = implied(q.facts, isdist(base))
        ctx.check(base is not r if d is True else base is r, "table-sample", api, f"({label}) a distribution in the table is not sampled: {r!r}", where, ps)
        return
    if not any(e.base is s for e in ds):
        ctx.check(len(es) == 1 and same(r, want[0]) or es[0].sample is r and len(es) == 1, "table-sample", api, f"({label}) gives {r!r} without a random number", where, ps)
        return
    hit = [i for i, e in enumerate(es) if (same(r, want[i]) if e.kind == "number" else r is e.sample)]
    if not ctx.check(len(hit) == 1, "table-sample", api, f"({label}) gives {r!r}, which is not in the table", where, ps):
        return
    i = hit[0]
    lo = i == 0 or below(q, R, C[i - 1]) is False
    up = tm.is_num_const(C[i]) or below(q, R, C[i]) is True or same(C[i], const(1))
    ctx.check(lo and up, "table-sample", api, f"({label}) gives value {i} where the random number is not known to be at least the cumulative probability before it and less than that after it", where, ps)


def cdf(ctx):
    cls = "Cdf"
    init = method(ctx, cls, "__init__")
    top = 3 if ctx.tier == "quick" else 4
    for k, (tu, env), stream in itertools.product(range(2, top + 1), ((NONE, NONE), (TU, DENV)), (NONE, STREAM)):
        if k > 2 and (stream is not NONE):
            continue
        es = [Entry("number", i) for i in range(k)]
        c = [mk("sym", f"c{i}") for i in range(k)]
        facts = [(cmp_eq(t, NONE), False) for t in (tu, env, stream) if t is not NONE]
        if tu is not NONE:
            facts.append((cmp_eq(A(env, "_time_unit"), NONE), False))
        lists = {"spec": [t for e, y in zip(es, c) for t in (e.x, y)]}
        hs = table_handlers(es)
        f = factor(tu, env)
        label = f"{k} points" + ("" if tu is NONE else ", time_unit") + ("" if stream is NONE else ", randomstream")
        where = ctx.where(init)
        X = [tm.mul(e.x, f) for e in es]
        for p in ctx.paths(init, key="cdf" + label, args={"spec": mk("new", "list", "spec"), "time_unit": tu, "env": env, "randomstream": stream}, cls=cls, handlers=hs, pre=table_pre(es, facts, lists), unroll_known=10, while_k=k + 1):
            ctx.count("tables")
            first = implied(p.facts, cmp_eq(c[0], const(0)))
            if p.raised:
                if stream is not NONE and implied(p.facts, mk("cmp", "isinst", stream, ("Random",))) is False:
                    continue
                bad = first is False or implied(p.facts, cmp_eq(c[-1], const(0))) is True
                for i in range(1, k):
                    bad = bad or below(p, c[i], c[i - 1]) is True or below(p, X[i], X[i - 1]) is True
                # the first value is compared with -inf and with 0
                bad = bad or below(p, X[0], tm.neg(INF)) is True or below(p, c[0], const(0)) is True
                ctx.check(bad, "valid-accepted", cls, f"({label}) refuses a valid table with {p.outcome[1].name}", where, pathstr(p))
                continue
            ctx.check(first is True, "invalid-refused", cls, f"({label}) accepts a first cumulative value that is not 0", where, pathstr(p))
            for i in range(1, k):
                ctx.check(below(p, c[i], c[i - 1]) is False and below(p, X[i], X[i - 1]) is False, "invalid-refused", cls, f"({label}) accepts a decreasing table", where, pathstr(p))
            ctx.check(implied(p.facts, cmp_eq(c[-1], const(0))) is False, "invalid-refused", cls, f"({label}) accepts a table without any probability", where, pathstr(p))
            s = RANDOM if stream is NONE else stream
            C = [tm.div(y, c[-1]) for y in c]
            C[0] = const(0)
            cc = [const(0)] + c[1:]
            m = const(0)
            for i in range(1, k):
                m = tm.add(m, tm.mul(half(X[i - 1], X[i]), tm.div(tm.sub(cc[i], cc[i - 1]), c[-1])))
            fi = method(ctx, cls, "mean")
            for q in ctx.paths(fi, key="cdf" + str(id(p)), cls=cls, handlers=hs, pre=chain(p)):
                r = None if q.raised else q.outcome[1]
                r = r if r is None else subst(r, c[0], const(0))
                ctx.count("formulas")
                ctx.check(r is not None and same(r, m), "table-mean", cls + ".mean", f"({label}) gives {r!r}, {m!r} required", ctx.where(fi), pathstr(q))
            fi = method(ctx, cls, "sample")
            w = ctx.where(fi)
            for q in ctx.paths(fi, key="cdf" + str(id(p)), cls=cls, handlers=hs, pre=chain(p), unroll_known=10, max_depth=9):
                q0 = Sub(q, c[0], const(0))
                if q0.contradiction or impossible(q0, C[1:]) or any(implied(q.facts, cmp_eq(x, INF)) is True for x in c):
                    continue
                ctx.count("samples")
                r = None if q.raised else subst(q.outcome[1], c[0], const(0))
                ds = draws(q)
                ctx.check(len(ds) == 1 and ds[0].base is s, "stream", cls + ".sample", f"({label}) draws from {[e.base for e in ds]!r} instead of {s!r}", w, pathstr(q))
                ok = False
                for i in range(1, k):
                    if r is None:
                        break
                    if below(q0, R, C[i]) is True and (i == 1 or below(q0, R, C[i - 1]) is False) and implied(q0.facts, cmp_eq(C[i - 1], C[i])) is True:
                        ok = True  # cannot happen
                    if not (i == 1 or below(q0, R, C[i - 1]) is False) or not (i == k - 1 or below(q0, R, C[i]) is True):
                        continue
                    lin = tm.add(X[i - 1], tm.div(tm.mul(tm.sub(X[i], X[i - 1]), tm.sub(R, C[i - 1])), tm.sub(C[i], C[i - 1])))
                    flat = implied(q.facts, cmp_eq(X[i - 1], X[i])) is True
                    if same(r, lin) or flat and (same(r, X[i]) or same(r, X[i - 1])):
                        ok = True
                    if same(r, X[i - 1]) and below(q0, R, C[i - 1], False) is True:
                        ok = True
                ctx.check(ok, "table-sample", cls + ".sample", f"({label}) gives {r!r}, which is not the interpolated value", w, pathstr(q))


def subst(t, a, b):
    if t is a:
        return b
    if t.op == "lin":
        r = tm.lin_const(t.a[0])
        for x, v in t.a[1]:
            r = tm.add(r, tm.scale(subst(x, a, b), v))
        return r
    if t.op == "prod":
        r = const(1)
        for x, e in t.a[0]:
            y = subst(x, a, b)
            for _ in range(abs(int(e))):
                r = tm.mul(r, y) if e > 0 else tm.div(r, y)
        return r
    if t.op == "div":
        return tm.div(subst(t.a[0], a, b), subst(t.a[1], a, b))
    return t


class Sub:
    """a path on which a is known to be b"""

    def __init__(self, q, a, b):
        self.facts = {}
        self.contradiction = False
        for x, v in q.facts.items():
            if x.op == "cmp" and x.a[0] in ("lt", "le"):
                f = subst(tm.add(x.a[1], tm.lin_const(x.a[2])), a, b)
                x = cmp_lt(f, const(0), x.a[0] == "lt")
                if x.op == "not":
                    x, v = x.a[0], not v
                if x.op != "cmp":
                    self.contradiction = self.contradiction or (x is TRUE) != v
                    continue
            if x.op == "cmp" and x.a[0] in ("eq", "eq0"):
                x = cmp_eq(subst(x.a[1], a, b), subst(x.a[2], a, b)) if x.a[0] == "eq" else cmp_eq(subst(tm.add(x.a[1], tm.lin_const(x.a[2])), a, b), const(0))
                if x.op == "not":
                    x, v = x.a[0], not v
                if x in (TRUE, FALSE):
                    self.contradiction = self.contradiction or (x is TRUE) != v
                    continue
            if self.facts.get(x, v) != v:
                self.contradiction = True
            self.facts[x] = v


@prop("C35")
def c35(ctx):
    tables(ctx)
    cdf(ctx)
    ctx.floor("tables", 60)
    ctx.floor("samples", 60)
    ctx.floor("formulas", 40)


# ------------------------------------------------------------------ distributions made of distributions

DIS, DIS1, OTHER = mk("sym", "arg:dis"), mk("sym", "arg:dis1"), mk("sym", "arg:other")


def inner_handlers(convert=True):
    h = handlers()

    def h_sample(eng, st, recv, pos, kw, node):
        if recv is None or recv.op not in ("sym", "attr") or recv is SELF:
            return None
        st = st.clone()
        st.uniq += 1
        t = mk("sym", f"sample{len([e for e in st.events() if e.kind == 'sampled'])} of {recv!r}")
        st = eng.event(st, Ev("sampled", recv, "sample", value=t, extra=st.heap.get((recv, "randomstream"))), node)
        return [(st, t)]

    def h_mean(eng, st, recv, pos, kw, node):
        if recv is None or recv.op not in ("sym", "attr") or recv is SELF:
            return None
        return [(st, mk("pure", "mean of", recv))]

    def h_float(eng, st, recv, pos, kw, node):
        t = pos[0]
        out = []
        for x, v in eng.assume2(mk("cmp", "convertible", t), st):
            out.append((x, t if v else Raise("ValueError", node.lineno, st.fn)))
        return out

    h.update({".sample": h_sample, ".mean": h_mean})
    if convert:
        h["float"] = h_float
    return h


def sampled(q):
    return [e for e in q.events if e.kind == "sampled"]


def bounded(ctx):
    cls = "Bounded"
    init = method(ctx, cls, "__init__")
    lo, hi, fv = sym("lowerbound"), sym("upperbound"), sym("fail_value")
    tries = 2
    for L, U, F, (tu, env), il, iu in itertools.product((NONE, lo), (NONE, hi), (NONE, fv), ((NONE, NONE), (TU, DENV)), (TRUE, FALSE), (TRUE, FALSE)):
        if tu is not NONE and (il is FALSE or iu is FALSE):
            continue
        args = {"dis": DIS, "lowerbound": L, "upperbound": U, "fail_value": F, "number_of_retries": const(tries), "include_lowerbound": il, "include_upperbound": iu, "time_unit": tu, "env": env}
        f = factor(tu, env)
        lb, ub = (None if x is NONE else tm.mul(x, f) for x in (L, U))
        label = ", ".join(n for n, x in (("lowerbound" + ("" if il is TRUE else " excluded"), L), ("upperbound" + ("" if iu is TRUE else " excluded"), U), ("fail_value", F), ("time_unit", tu)) if x is not NONE) or "no bounds"
        key = f"bounded{L}{U}{F}{tu}{il}{iu}"

        def pre(eng, st):
            st.uniq = 10
            outs = [st]
            fs = [(cmp_eq(t, NONE), False) for t in (L, U, F, tu, env) if t is not NONE]
            if tu is not NONE:
                fs.append((cmp_eq(A(env, "_time_unit"), NONE), False))
            for a, v in fs:
                outs = [y for x in outs for y in assume(x, a, v)]
            return outs

        where = ctx.where(init)
        hs = inner_handlers()
        for p in ctx.paths(init, key=key, args={k: v for k, v in args.items() if k in params(init)}, cls=cls, handlers=hs, pre=pre):
            cross = None if lb is None or ub is None else below(p, ub, lb)
            if p.raised:
                ctx.check(cross is True and p.outcome[1].name == "ValueError", "valid-accepted", cls, f"({label}) refuses valid bounds", where, pathstr(p))
                continue
            if lb is not None and ub is not None:
                ctx.check(cross is False, "invalid-refused", cls, f"({label}) accepts a lowerbound above the upperbound", where, pathstr(p))
            fi = method(ctx, cls, "sample")
            w = ctx.where(fi)
            for q in ctx.paths(fi, key=key + str(id(p)), cls=cls, handlers=hs, pre=chain(p), unroll_known=6):
                ctx.count("bounded samples")
                nl = lb is None or implied(q.facts, cmp_eq(lb, tm.neg(INF))) is True
                nu = ub is None or implied(q.facts, cmp_eq(ub, INF)) is True
                if any(x is not None and implied(q.facts, cmp_eq(x, y)) is True for x, y in ((lb, INF), (ub, tm.neg(INF)))):
                    continue
                ss = [e.value for e in sampled(q)]
                if any(implied(q.facts, cmp_lt(s, tm.neg(INF), False)) is True or implied(q.facts, cmp_lt(INF, s, False)) is True for s in ss):
                    continue  # an infinite sample
                if any(lb is not None and nl and below(q, s, lb, il is TRUE) is True or ub is not None and nu and below(q, ub, s, iu is TRUE) is True for s in ss):
                    continue  # beyond infinity
                api = cls + ".sample"
                if q.raised:
                    ctx.fail("bounds", api, f"({label}) fails with {q.outcome[1].name}", w, pathstr(q))
                    continue
                r = q.outcome[1]
                ctx.check(all(e.base is DIS for e in sampled(q)), "bounds", api, f"({label}) samples from something else", w, pathstr(q))
                rest = ss[:-1] if ss and r is ss[-1] else ss
                out = lambda s: not nl and (below(q, s, lb, il is TRUE) is True) or not nu and (below(q, ub, s, iu is TRUE) is True)
                ctx.check(all(out(s) for s in rest), "bounds", api, f"({label}) a sample is rejected that is not established to be out of bounds", w, pathstr(q))
                if ss and r is ss[-1]:
                    ctx.check(len(ss) <= tries or nl and nu, "bounds", api, f"({label}) tries more often than asked for", w, pathstr(q))
                    conv = implied(q.facts, mk("cmp", "convertible", r))
                    inl = nl or below(q, lb, r, il is FALSE) is True
                    inu = nu or below(q, r, ub, iu is FALSE) is True
                    ctx.check(conv is False or inl and inu, "bounds", api, f"({label}) gives a sample that is not established to be within the bounds", w, pathstr(q))
                else:
                    want = F if F is not NONE else (lb if not nl else ub)
                    ctx.check(len(ss) == tries and not (nl and nu) and want is not None and same(r, want), "fail-value", api, f"({label}) gives {r!r} after {len(ss)} tries, {want!r} after {tries} required", w, pathstr(q))
            fi = method(ctx, cls, "mean")
            for q in ctx.paths(fi, key=key + str(id(p)), cls=cls, handlers=hs, pre=chain(p)):
                from .monitor import isnan

                nl = lb is None or implied(q.facts, cmp_eq(lb, tm.neg(INF))) is True
                nu = ub is None or implied(q.facts, cmp_eq(ub, INF)) is True
                r = None if q.raised else q.outcome[1]
                ctx.check(r is not None and (r is mk("pure", "mean of", DIS) if nl and nu else isnan(r)), "bounded-mean", cls + ".mean", f"({label}) gives {r!r}", ctx.where(fi), pathstr(q))
    fi = ctx.m.need("_Distribution.bounded_sample")
    names = ("lowerbound", "upperbound", "fail_value", "number_of_retries", "include_lowerbound", "include_upperbound")
    for p in ctx.paths(fi, key="bs", cls="_Distribution", handlers={}):
        ns = [e for e in p.events if e.kind == "new" and e.name == "Bounded"]
        if not ctx.check(len(ns) == 1, "bounded-sample", "_Distribution.bounded_sample", "is not a sample of a bounded distribution", ctx.where(fi), pathstr(p)):
            continue
        ps = params(init)
        got = {ps[k] if isinstance(k, int) else k: v for k, v in ns[0].args.items()}
        ctx.check(got.get("dis") is SELF and all(got.get(n) is sym(n) for n in names), "bounded-sample", "_Distribution.bounded_sample", f"bounds {got!r}", ctx.where(fi), pathstr(p))


DUNDERS = {
    "__pos__": lambda a, b: a, "__neg__": lambda a, b: tm.neg(a),
    "__add__": lambda a, b: tm.add(a, b), "__radd__": lambda a, b: tm.add(b, a), "__sub__": lambda a, b: tm.sub(a, b), "__rsub__": lambda a, b: tm.sub(b, a),
    "__mul__": lambda a, b: tm.mul(a, b), "__rmul__": lambda a, b: tm.mul(b, a), "__truediv__": lambda a, b: tm.div(a, b), "__rtruediv__": lambda a, b: tm.div(b, a),
    "__floordiv__": lambda a, b: ("floordiv", a, b), "__rfloordiv__": lambda a, b: ("floordiv", b, a), "__pow__": lambda a, b: ("pow", a, b), "__rpow__": lambda a, b: ("pow", b, a),
}
FORMULA = {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "truediv": tm.div}


def expressions(ctx):
    from .monitor import isnan

    cls = "_Expression"
    init = method(ctx, cls, "__init__")
    names = params(init)
    # which expression an operator makes
    for name, want in DUNDERS.items():
        fi = ctx.m.need("_Distribution." + name)
        other = params(fi)
        for p in ctx.paths(fi, key="dunder", cls="_Distribution", handlers={}, args={other[0]: OTHER} if other else {}):
            ctx.count("operators")
            where = ctx.where(fi)
            a, b = mk("sym", "value"), mk("sym", "other value")
            val = {SELF: a, OTHER: b}
            r = None if p.raised else p.outcome[1]
            got = val.get(r)
            ns = [e for e in p.events if e.kind == "new" and e.name == cls and e.base is r]
            if ns:
                x = {names[k] if isinstance(k, int) else k: v for k, v in ns[0].args.items()}
                vs = [val.get(x.get(n), x.get(n)) for n in names[:2]]
                op = x.get(names[2])
                o = op.a[0].split(".")[-1] if op is not None and op.op == "glob" else None
                got = FORMULA[o](*vs) if o in FORMULA else (o, *vs)
            w = want(a, b)
            ok = got is not None and (got == w if isinstance(w, tuple) or isinstance(got, tuple) else same(got, w))
            ctx.check(ok, "operator", "_Distribution." + name, f"makes {got!r}; {w!r} required", where, pathstr(p))
    # what the expression gives
    KIND = ("number", "distribution", "constant")
    for k0, k1, op in itertools.product(KIND, KIND, ("add", "sub", "mul", "truediv", "floordiv", "pow")):
        ds = [DIS, DIS1]

        def pre(eng, st):
            st.uniq = 10
            outs = [st]
            for d, k in zip(ds, (k0, k1)):
                for a, v in ((isdist(d), k != "number"), (mk("cmp", "isinst", d, ("Constant",)), k == "constant"), (isdist(A(d, "_mean")), False), (cmp_eq(d, NONE), False)):
                    outs = [y for x in outs for y in assume(x, a, v)]
            return outs

        hs = inner_handlers()
        key = f"expr{k0}{k1}{op}"
        label = f"{k0} {op} {k1}"
        for p in ctx.paths(init, key=key, args=dict(zip(names, (DIS, DIS1, mk("glob", "operator." + op)))), cls=cls, handlers=hs, pre=pre):
            if p.raised:
                ctx.fail("expression", cls, f"({label}) fails with {p.outcome[1].name}", ctx.where(init), pathstr(p))
                continue
            for what in ("sample", "mean"):
                fi = method(ctx, cls, what)
                for q in ctx.paths(fi, key=key + what + str(id(p)), cls=cls, handlers=hs, pre=chain(p)):
                    ctx.count("expressions")
                    where = ctx.where(fi)
                    r = None if q.raised else q.outcome[1]
                    vals = []
                    for d, k in zip(ds, (k0, k1)):
                        if k == "number":
                            vals.append([d])
                        elif k == "constant":
                            vals.append([A(d, "_mean"), mk("pure", "mean of", d)] + [e.value for e in sampled(q) if e.base is d])
                        elif what == "mean":
                            vals.append([mk("pure", "mean of", d)])
                        else:
                            vals.append([e.value for e in sampled(q) if e.base is d])
                    if what == "sample":
                        n = [len([e for e in sampled(q) if e.base is d]) for d in ds]
                        ctx.check(all(x == 1 or x == 0 and k != "distribution" for x, k in zip(n, (k0, k1))), "expression", cls + "." + what, f"({label}) samples the operands {n} times", where, pathstr(q))
                    elif op in ("floordiv", "pow") or op == "mul" and k0 == k1 == "distribution" or op == "truediv" and k1 == "distribution":
                        ctx.check(r is not None and isnan(r), "expression-mean", cls + ".mean", f"({label}) gives {r!r}", where, pathstr(q))
                        continue
                    ok = False
                    for a, b in itertools.product(*vals):
                        if op in FORMULA:
                            ok = ok or r is not None and same(r, FORMULA[op](a, b))
                        else:
                            ok = ok or r is not None and r is Engine.binop(None, ARITH[op](), a, b)
                    ctx.check(ok, "expression", cls + "." + what, f"({label}) gives {r!r}", where, pathstr(q))


def wrappers(ctx):
    fi = ctx.m.need("Map.sample")
    init = method(ctx, "Map", "__init__")
    FN = mk("sym", "arg:function")
    hs = inner_handlers()
    for p in ctx.paths(init, key="map", cls="Map", handlers=hs, args={"dis": DIS, "function": FN}):
        for q in ctx.paths(fi, key="map" + str(id(p)), cls="Map", handlers=hs, pre=chain(p)):
            ctx.count("wrapped samples")
            r = None if q.raised else q.outcome[1]
            s = sampled(q)
            ok = len(s) == 1 and s[0].base is DIS and r is mk("app", FN, s[0].value)
            ctx.check(ok, "mapped-sample", "Map.sample", f"gives {r!r}", ctx.where(fi), pathstr(q))
    fi = ctx.m.need("Distribution.sample")
    D = A(SELF, "_distribution")
    for q in ctx.paths(fi, key="dis", cls="Distribution", handlers=hs):
        ctx.count("wrapped samples")
        s = sampled(q)
        ok = not q.raised and len(s) == 1 and s[0].base is D and q.outcome[1] is s[0].value
        ctx.check(ok, "wrapped-sample", "Distribution.sample", f"gives {q.outcome[1]!r}", ctx.where(fi), pathstr(q))
        ctx.check(ok and s[0].extra is A(SELF, "randomstream"), "stream", "Distribution.sample", "the sample is not drawn from the stream of the distribution", ctx.where(fi), pathstr(q))
    fi = ctx.m.need("Distribution.mean")
    for q in ctx.paths(fi, key="dis", cls="Distribution", handlers=hs):
        ctx.check(not q.raised and q.outcome[1] is mk("pure", "mean of", D), "wrapped-sample", "Distribution.mean", f"gives {q.outcome[1]!r}", ctx.where(fi), pathstr(q))
    fi = ctx.m.need("External.sample")
    buf = mk("new", "list", "buffer")
    S = [mk("sym", f"buffered{i}") for i in range(2)]

    def pre(eng, st):
        st.uniq = 10
        st.heap[(SELF, "samples")] = buf
        st.heap[(buf, "#items")] = mk("list", *S)
        return [st]

    for q in ctx.paths(fi, key="ext", cls="External", handlers=hs, pre=pre):
        ctx.count("wrapped samples")
        left = lst(q, "samples")
        r = None if q.raised else q.outcome[1]
        gone = [x for x in S if left is not None and x not in left]
        ok = r is not None and left is not None and len(left) == 1 and len(gone) == 1 and same(r, tm.mul(gone[0], A(SELF, "time_unit_factor")))
        ctx.check(ok, "buffered-sample", "External.sample", f"gives {r!r} and keeps {left!r}", ctx.where(fi), pathstr(q))
    fi = ctx.m.need("External.mean")
    for q in ctx.paths(fi, key="ext", cls="External", handlers=hs):
        ctx.check(not q.raised and same(q.outcome[1], tm.mul(A(SELF, "_mean"), A(SELF, "time_unit_factor"))), "external-mean", "External.mean", f"gives {q.outcome[1]!r}", ctx.where(fi), pathstr(q))
    for name in ("__call__",):
        fi = ctx.m.need("_Distribution." + name)
        calls = []

        def h(eng, st, recv, pos, kw, node):
            st = eng.event(st, Ev("sampled", recv, "sample"), node)
            return [(st, mk("sym", "the sample"))]

        for q in ctx.paths(fi, key="call", cls="_Distribution", handlers={".sample": h}):
            s = sampled(q)
            ctx.check(not q.raised and len(s) == 1 and s[0].base is SELF and q.outcome[1] is mk("sym", "the sample"), "wrapped-sample", "_Distribution.__call__", f"gives {q.outcome[1]!r}", ctx.where(fi), pathstr(q))


@prop("C36")
def c36(ctx):
    bounded(ctx)
    expressions(ctx)
    wrappers(ctx)
    ctx.floor("bounded samples", 100)
    ctx.floor("expressions", 100)
    ctx.floor("operators", 14)
    ctx.floor("wrapped samples", 3)
