"""Reproducible runs, temporary settings that are put back, time units."""
import ast
from lib.core import *
from lib.engine import MODULE
from lib.effects import Effects, param_consts
from lib.ratio import same, ratio_const
from . import prop
from . import derived as der
from .monitor import assume
from .effects import CORE

TU = mk("attr", ENV, "_time_unit")
DT0 = mk("attr", ENV, "_datetime0")


def near(t, k):
    """t is the number k"""
    v = tm.num_value(t) if tm.is_num_const(t) else None
    return v is not None and abs(float(v) / k - 1) < 1e-12


def near_ratio(a, b):
    k = ratio_const(a, b)
    return k is not None and abs(float(k) - 1) < 1e-12


# ------------------------------------------------------------------ C26

UNITS = {"years": 86400 * 365, "weeks": 86400 * 7, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "microseconds": 1e-6}


def h_timedelta(eng, st, recv, pos, kw, node):
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    if len(pos) > len(names):
        return None
    t = const(0)
    for n, v in list(zip(names, pos)) + list(kw.items()):
        if n not in UNITS:
            return None
        t = tm.add(t, tm.mul(const(UNITS[n]), v))
    return [(st, mk("pure", "timedelta", t))]


def h_total_seconds(eng, st, recv, pos, kw, node):
    if recv.op == "pure" and recv.a[0] == "timedelta":
        return [(st, recv.a[1])]
    return [(st, mk("pure", "total_seconds", recv))]


TIMEH = {"datetime.timedelta": h_timedelta, ".total_seconds": h_total_seconds}


def odd_callable(p, t):
    """the path supposes that a number is callable"""
    for f, v in p.facts.items():
        if v and "callable(" in repr(f) and f"callable({t!r})" not in repr(f):
            return True
    return False


def unavailable(p):
    return implied(p.facts, cmp_eq(TU, NONE)) is True


def convert(ctx, api, tname, args, factor, key=""):
    """result of a unit conversion is factor(argument)"""
    fi = ctx.m.need(api)
    t = mk("sym", "arg:" + tname)
    n = 0
    where = ctx.where(fi)
    for p in ctx.paths(fi, key="unit" + key, args=args, extra_handlers=TIMEH, max_depth=7):
        if unavailable(p):
            ctx.check(p.raised and p.outcome[1].name == "AttributeError", "no-time-unit", api, "without a time unit, this does not raise an AttributeError", where, pathstr(p))
            continue
        if odd_callable(p, t):
            continue
        if not ctx.check(not p.raised, "time-unit", api, f"raises {p.outcome[1]!r} for a valid argument", where, pathstr(p)):
            continue
        n += 1
        c = any(v and f"callable({t!r})" in repr(f) for f, v in p.facts.items())
        got = p.outcome[1]
        if c:
            vals = {x for x in subterms(got) if x.op in ("app", "res") and (t in x.a or any(t is y for y in x.a))}
            ok = len(vals) == 1 and near_ratio(got, factor(vals.pop()))
        else:
            ok = near_ratio(got, factor(t))
        ctx.check(ok, "time-unit", api, f"gives {tm.show(got)}, {tm.show(factor(t))} required" + (" with t sampled" if c else ""), where, pathstr(p))
    ctx.check(any(callable_t(p, t) for p in ctx.paths(fi, key="unit" + key, args=args)), "time-unit", api, "a distribution as argument is not sampled", where)
    ctx.count("unit conversions", n)
    return n


@prop("C26")
def c26(ctx):
    m = ctx.m
    fi = m.need("_time_unit_lookup")
    for u, k in UNITS.items():
        for p in ctx.paths(fi, key="lk" + u, args={fi.posargs[0]: const(u)}):
            ctx.count("time units")
            ctx.check(not p.raised and near(p.outcome[1], 1 / k), "time-unit-length", u, f"gives {p.outcome[1]!r} units per second, {1 / k!r} required", ctx.where(fi), pathstr(p))
    ctx.floor("time units", 8)
    for p in ctx.paths(fi, key="lkna", args={fi.posargs[0]: const("n/a")}):
        ctx.check(not p.raised and p.outcome[1] is NONE, "time-unit-length", "n/a", f"gives {p.outcome[1]!r}, None required", ctx.where(fi), pathstr(p))
    for p in ctx.paths(fi, key="lkx", args={fi.posargs[0]: const("lightyears")}):
        ctx.check(p.raised and p.outcome[1].name == "ValueError", "unknown-time-unit", fi.qual, f"an unknown unit does not raise a ValueError: {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
    for u, k in UNITS.items():
        convert(ctx, f"Environment.{u}", "t", None, lambda t: tm.mul(tm.mul(t, const(k)), TU))
        convert(ctx, f"Environment.to_{u}", "t", None, lambda t: tm.div(t, tm.mul(const(k), TU)))
        convert(ctx, "Environment.to_time_unit", "t", {"time_unit": const(u)}, lambda t: tm.div(t, tm.mul(const(k), TU)), key=u)
    ctx.floor("unit conversions", 48)
    # monitors
    w = der.World(False, (2,))
    never = [(cmp_eq(der.X(SELF, i), v), False) for i in range(2) for v in (der.A(SELF, "off"), tm.neg(INF))] + [(cmp_eq(TU, NONE), False)]
    for u, k in UNITS.items():
        for api, args in ((f"Monitor.to_{u}", {"name": NONE}), ("Monitor.to_time_unit", {"name": NONE, "time_unit": const(u)})):
            fi, ps = der.run(ctx, api, w, args=args, key="u" + u, facts=never)
            for p in ps:
                ctx.count("monitors converted")
                r = der.derived(ctx, p, w, api, ctx.where(fi))
                if r is not None:
                    x = r[1]
                    ok = len(x) == 2 and all(near_ratio(x[i], tm.div(der.X(SELF, i), tm.mul(const(k), TU))) for i in range(2))
                    ctx.check(ok, "time-unit", api, f"gives {[tm.show(y) for y in x]} for {u}", ctx.where(fi), pathstr(p))
            fi, ps = der.run(ctx, api, w, args=args, key="una" + u, facts=[(cmp_eq(TU, NONE), True)])
            for p in ps:
                ctx.check(p.raised and p.outcome[1].name == "AttributeError", "no-time-unit", api, "without a time unit, converting a monitor does not raise an AttributeError", ctx.where(fi), pathstr(p))
    ctx.floor("monitors converted", 16)
    # factor of distributions
    fi = m.need("_time_unit_factor")
    tu, env = mk("sym", "arg:" + fi.posargs[0]), mk("sym", "arg:" + fi.posargs[1])
    for p in ctx.paths(fi, key="fn", args={fi.posargs[0]: NONE}):
        ctx.check(not p.raised and p.outcome[1] is const(1), "time-unit-factor", fi.qual, "without a time unit the factor is not 1", ctx.where(fi), pathstr(p))
    for u, k in UNITS.items():
        for p in ctx.paths(fi, key="f" + u, args={fi.posargs[0]: const(u)}):
            e = env
            if implied(p.facts, cmp_eq(env, NONE)) is True:
                e = mk("attr", mk("glob", "g"), "default_env")
            un = implied(p.facts, cmp_eq(e, NONE)) is True or implied(p.facts, cmp_eq(mk("attr", e, "_time_unit"), NONE)) is True
            ctx.count("factors")
            if un:
                ctx.check(p.raised and p.outcome[1].name == "AttributeError", "no-time-unit", fi.qual, "without a time unit of the environment, this does not raise an AttributeError", ctx.where(fi), pathstr(p))
                continue
            ctx.check(not p.raised and near_ratio(p.outcome[1], tm.mul(const(k), mk("attr", e, "_time_unit"))), "time-unit-factor", fi.qual, f"gives {p.outcome[1]!r} for {u}", ctx.where(fi), pathstr(p))
    ctx.floor("factors", 8)
    # dates
    secs = lambda t: tm.div(t, TU)
    api = "Environment.t_to_datetime"
    fi = m.need(api)
    t = mk("sym", "arg:" + fi.posargs[1])
    for p in ctx.paths(fi, key="date", extra_handlers=TIMEH, max_depth=7):
        dated(ctx, p, fi, t, lambda got: same_date(got, secs(t)))
    api = "Environment.datetime_to_t"
    fi = m.need(api)
    d = mk("sym", "arg:" + fi.posargs[1])
    for p in ctx.paths(fi, key="date", extra_handlers=TIMEH, max_depth=7):
        dated(ctx, p, fi, d, lambda got: near_ratio(got, tm.mul(TU, mk("pure", "total_seconds", tm.sub(d, DT0)))))
    api = "Environment.timedelta_to_duration"
    fi = m.need(api)
    d2 = mk("sym", "arg:" + fi.posargs[1])
    for p in ctx.paths(fi, key="date", extra_handlers=TIMEH, max_depth=7):
        dated(ctx, p, fi, d2, lambda got: near_ratio(got, tm.mul(TU, mk("pure", "total_seconds", d2))))
    api = "Environment.duration_to_timedelta"
    fi = m.need(api)
    t = mk("sym", "arg:" + fi.posargs[1])
    for p in ctx.paths(fi, key="date", extra_handlers=TIMEH, max_depth=7):
        if odd_callable(p, t) or callable_t(p, t):
            continue
        if unavailable(p) or implied(p.facts, truth(TU)) is False:
            ctx.check(p.raised, "no-time-unit", api, "gives a timedelta without a time unit", ctx.where(fi), pathstr(p))
            continue
        ctx.count("dates")
        got = p.outcome[1]
        ok = not p.raised and got.op == "pure" and got.a[0] == "timedelta" and near_ratio(got.a[1], secs(t))
        ctx.check(ok, "dates", api, f"gives {got!r}", ctx.where(fi), pathstr(p))
    ctx.floor("dates", 5)
    # a reset of the clock keeps the date of the present moment
    fi = m.need("Environment.reset_now")
    for p in ctx.paths(fi, key="date", extra_handlers=TIMEH, max_depth=7):
        if p.raised or any(v and "callable(" in repr(f) for f, v in p.facts.items()):
            continue
        off = p.heap.get((ENV, "_offset"))
        dt = p.heap.get((ENV, "_datetime0"), DT0)
        ctx.count("resets of the clock")
        if not ctx.check(off is not None, "reset-keeps-the-date", fi.qual, "does not set the offset", ctx.where(fi), pathstr(p)):
            continue
        if implied(p.facts, truth(DT0)) is False:
            ok = dt is DT0
        else:
            ok = same_date(dt, secs(tm.sub(off, OFFSET)))
        ctx.check(ok, "reset-keeps-the-date", fi.qual, f"the date at 0 becomes {dt!r} when the offset becomes {off!r}", ctx.where(fi), pathstr(p))
    ctx.floor("resets of the clock", 2)
    # the environment's own unit
    fi = m.need("Environment.datetime0")
    for p in ctx.paths(fi, key="d0", max_depth=5):
        if p.raised:
            continue
        ctx.count("dates set")
        d = p.heap.get((ENV, "_datetime0"))
        u = p.heap.get((ENV, "_time_unit"), TU)
        if d is None or d in (FALSE, NONE):
            ctx.check(u is TU, "unit-of-dates", fi.qual, "changes the time unit without setting a date", ctx.where(fi), pathstr(p))
        elif implied(p.facts, cmp_eq(TU, NONE)) is True:
            ctx.check(near(u, 1), "unit-of-dates", fi.qual, f"the time unit becomes {u!r} rather than seconds", ctx.where(fi), pathstr(p))
        else:
            ctx.check(u is TU and implied(p.facts, cmp_eq(TU, NONE)) is False, "unit-of-dates", fi.qual, f"a date changes the time unit to {u!r}", ctx.where(fi), pathstr(p))
    ctx.floor("dates set", 4)


def callable_t(p, t):
    return any(v and f"callable({t!r})" in repr(f) for f, v in p.facts.items())


def dated(ctx, p, fi, t, ok):
    if odd_callable(p, t) or callable_t(p, t):
        return
    where = ctx.where(fi)
    if implied(p.facts, truth(DT0)) is False:
        ctx.check(p.raised and p.outcome[1].name == "ValueError", "dates", fi.qual, "without datetime0 this does not raise a ValueError", where, pathstr(p))
        return
    if unavailable(p) or implied(p.facts, truth(TU)) is False:
        return
    ctx.count("dates")
    if implied(p.facts, cmp_eq(t, INF)) is True:
        ctx.check(not p.raised and p.outcome[1] in (t, INF), "dates", fi.qual, "infinity does not stay infinity", where, pathstr(p))
        return
    ctx.check(not p.raised and ok(p.outcome[1]), "dates", fi.qual, f"gives {p.outcome[1]!r}", where, pathstr(p))


def same_date(got, secs):
    """got is datetime0 + timedelta(secs)"""
    if got is None:
        return False
    d = tm.sub(got, DT0)
    return d.op == "pure" and d.a[0] == "timedelta" and near_ratio(d.a[1], secs)


# ------------------------------------------------------------------ C25


def thrown(eng, st, t):
    """the body of the with statement ends normally, or with an exception"""
    st2 = st.clone()
    return [st, (st2, Raise("BodyError", 0, "the body", True))]


def restored(ctx, fi, p, rule, skip=()):
    """all cells written on the path that existed before have their old value again"""
    last = {}
    for e in p.events:
        if e.kind == "write":
            last[(e.base, e.name)] = e
    n = 0
    for (b, a), e in last.items():
        if b.op == "new" or a in skip:
            continue
        old = mk("attr", b, a)
        v = p.heap.get((b, a), old)
        n += 1
        # the value before: the cell itself, or what the path facts say it is equal to
        ok = v is old or implied(p.facts, cmp_eq(v, old)) is True or (v in (TRUE, FALSE) and implied(p.facts, truth(old)) is (v is TRUE))
        ctx.check(ok, rule, fi.qual, f"{a} is left at {v!r} when the body ends {'with an exception' if p.raised else 'normally'}", ctx.where(fi), pathstr(p))
    return n


def skip_none(p):
    """a saved setting of None cannot be passed to a setter; settings are never None"""
    return any(v and f.op == "cmp" and f.a[0] == "eq" and NONE in f.a[1:] and any(x.op == "attr" for x in f.a[1:]) for f, v in p.facts.items())


def during(ctx, fi, p, k):
    """the setting that is asked for is in force when the body runs"""
    cells = {}
    for ev in p.events[:k]:
        if ev.kind == "write":
            cells[(ev.base, ev.name)] = ev.value
    want = {"suppress_trace": ("_trace", FALSE)}.get(fi.name)
    ps = [a for a in fi.posargs if a not in ("self", "cls")]
    if want is not None:
        v = cells.get((ENV, want[0]))
        ok = v is want[1] or v is None and implied(p.facts, truth(mk("attr", ENV, want[0]))) is False
        ctx.check(ok, "setting-in-force", fi.qual, f"{want[0]} is {v!r} during the body", ctx.where(fi), pathstr(p))
    elif len(ps) == 1:
        a = mk("sym", "arg:" + ps[0])
        if any(v and f.op == "cmp" and f.a[0] == "eq" and a in f.a[1:] and NONE in f.a[1:] for f, v in p.facts.items()):
            return  # None: leave the setting as it is
        ok = a in cells.values() or any(v and f.op == "cmp" and f.a[0] == "eq" and a in f.a[1:] for f, v in p.facts.items())
        ctx.check(ok, "setting-in-force", fi.qual, "the value given is not in force during the body", ctx.where(fi), pathstr(p))


def stdout(ctx, cls):
    m = ctx.m
    ini, ent, exi = (m.method(cls, n) for n in ("__init__", "__enter__", "__exit__"))
    if None in (ini, ent, exi):
        ctx.fail("stdout-restored", cls, "is not a context manager", cls)
        return

    def h_close(eng, st, recv, pos, kw, node):
        return [(st, NONE)]

    old = mk("glob", "sys.stdout")
    eng = ctx.engine(handlers={"open": h_close, ".flush": h_close, ".close": h_close}, max_depth=6)
    n = 0
    for p in eng.run(ini, cls=cls):
        if p.raised:
            ctx.check(p.heap.get((mk("glob", "sys"), "stdout"), old) is old, "stdout-restored", cls, "stdout is replaced although the constructor fails", ctx.where(ini), pathstr(p))
            continue

        def pre2(e2, st, heap=p.heap, facts=p.facts):
            st.heap.update(heap)
            st.facts = dict(facts)
            return [st]

        for q in ctx.engine(handlers={}, max_depth=6).run(ent, pre=pre2, cls=cls):
            now = q.heap.get((mk("glob", "sys"), "stdout"))
            ctx.check(now is SELF, "stdout-captured", cls, f"in the body stdout is {now!r}", ctx.where(ent), pathstr(q))

            def pre3(e2, st, heap=q.heap, facts=q.facts):
                st.heap.update(heap)
                st.facts = dict(facts)
                return [st]

            for r in ctx.engine(handlers={}, max_depth=6).run(exi, pre=pre3, cls=cls):
                n += 1
                end = r.heap.get((mk("glob", "sys"), "stdout"))
                ctx.check(not r.raised and end is old, "stdout-restored", cls, f"after the body stdout is {end!r}", ctx.where(exi), pathstr(r))
                ctx.check(r.raised or implied(r.facts, truth(r.outcome[1])) is not True and r.outcome[1] is not TRUE, "exceptions-pass", cls, "exceptions of the body are swallowed", ctx.where(exi), pathstr(r))
    ctx.count("stdout redirections", n)


def frozen(ctx):
    """freezing a monitor leaves the monitor itself alone, whether copying succeeds or not"""
    fi = ctx.m.need("Monitor.freeze")

    def deepcopy(eng, st, recv, pos, kw, node):
        st2, t = eng.fresh("copy", st, node)
        return [(st2, t), (st.clone(), Raise("TypeError", 0, "copy.deepcopy", True))]

    n = 0
    eng = ctx.engine(handlers={"copy.deepcopy": deepcopy, "deepcopy": deepcopy, "copy.copy": deepcopy, "Monitor._block_stats_only": h_skip}, max_depth=5)
    for p in eng.run(fi, cls="Monitor"):
        n += 1
        ctx.check(p.heap.get((SELF, "env"), ENV) is ENV, "freeze-restores", fi.qual, "the monitor is left with another environment" + (" when copying fails" if p.raised else ""), ctx.where(fi), pathstr(p))
        for ev in p.events:
            if ev.kind == "write" and ev.base is SELF and ev.name != "env":
                ctx.fail("freeze-restores", fi.qual, f"changes {ev.name} of the monitor itself", ctx.where(fi, ev.line), pathstr(p))
    ctx.count("ways to freeze", n)


@prop("C25")
def c25(ctx):
    m = ctx.m
    for fi in sorted(m.all_funcs(), key=lambda f: f.qual):
        if not any("contextmanager" in ast.unparse(d) for d in fi.node.decorator_list):
            continue
        ctx.count("context managers")
        e = ctx.engine(trace=None, max_depth=7)
        e.on_yield = thrown
        ps = e.run(fi)
        ctx.analysed.add(fi.qual)
        ctx.npaths += len(ps)
        seen = {False: 0, True: 0}
        ys = 0
        for p in ps:
            if skip_none(p):
                continue
            yi = [i for i, ev in enumerate(p.events) if ev.kind == "yield"]
            ctx.check(len(yi) == 1, "one-body", fi.qual, f"the body runs {len(yi)} times", ctx.where(fi), pathstr(p))
            ctx.check(p.raised == any("BodyError" in repr(x) for x in (p.outcome[1],)), "exceptions-pass", fi.qual, f"ends with {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
            seen[p.raised] += 1
            ctx.count("exits")
            restored(ctx, fi, p, "setting-restored")
            if yi:
                during(ctx, fi, p, yi[0])
        ctx.check(seen[True] and seen[False], "exceptions-pass", fi.qual, "an exception in the body does not come out", ctx.where(fi))
    ctx.floor("context managers", 3)
    ctx.floor("exits", 6)
    for c in ("capture_stdout", "redirect_stdout"):
        if c in m.classes:
            stdout(ctx, c)
    ctx.floor("stdout redirections", 3)
    frozen(ctx)
    ctx.floor("ways to freeze", 3)


# ------------------------------------------------------------------ C23

ORDERED = {"len", "sorted", "any", "all", "min", "max", "set", "frozenset", "sum", "isinstance", "bool", "repr", "str", "id", "print"}
ITERATES = {"list", "tuple", "iter", "next", "enumerate", "zip", "map", "filter", "reversed", "chain", "deque", "array", "dict", "OrderedDict", "join", "extend"}
CLOCKS = {"time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "time.process_time", "os.urandom", "os.getpid", "uuid.uuid4", "uuid.uuid1", "random.SystemRandom", "datetime.datetime.now", "datetime.now", "secrets.token_bytes"}


class Unordered:
    """expressions of which the value is an unordered collection"""

    def __init__(self, m):
        self.m = m
        # attributes that only ever get sets
        asg = {}
        for f in m.all_funcs():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            asg.setdefault(t.attr, []).append(n.value)
        self.attrs = {a for a, vs in asg.items() if all(self.direct(v) for v in vs)}

    def direct(self, n):
        return isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset")

    def locals(self, f):
        asg = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        asg.setdefault(t.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        asg.setdefault(x.id, []).append(None)
        out = set()
        for _ in range(3):
            out = {a for a, vs in asg.items() if a not in f.posargs and all(v is not None and self.isset(v, out) for v in vs)}
        return out

    def isset(self, n, loc):
        if self.direct(n):
            return True
        if isinstance(n, ast.Name):
            return n.id in loc
        if isinstance(n, ast.Attribute):
            return n.attr in self.attrs
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ("as_set", "intersection", "union", "difference", "symmetric_difference"):
                return n.func.attr == "as_set" or self.isset(n.func.value, loc)
            return n.func.attr == "copy" and self.isset(n.func.value, loc)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.isset(n.left, loc) or self.isset(n.right, loc)
        if isinstance(n, ast.IfExp):
            return self.isset(n.body, loc) or self.isset(n.orelse, loc)
        return False

    def iterations(self, f):
        """(node, what) where the order of an unordered collection can be seen"""
        loc = self.locals(f)
        par = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        for n in own_nodes(f.node):
            up = n
            while up is not None and not isinstance(up, (ast.Raise, ast.Assert)):
                up = par.get(up)
            if up is not None:
                continue  # text of an error
            if isinstance(n, ast.For) and self.isset(n.iter, loc) and not commutative(n):
                yield n, ast.unparse(n.iter)
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                if any(self.isset(g.iter, loc) for g in n.generators):
                    q = par.get(n)
                    if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ORDERED:
                        continue
                    yield n, ast.unparse(n)
            elif isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
                if nm in ITERATES and any(self.isset(a, loc) for a in n.args):
                    q = par.get(n)
                    if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ORDERED:
                        continue
                    yield n, ast.unparse(n)
                if nm == "pop" and isinstance(n.func, ast.Attribute) and self.isset(n.func.value, loc) and not n.args:
                    yield n, ast.unparse(n)
                for a in n.args:
                    if isinstance(a, ast.Starred) and self.isset(a.value, loc):
                        yield n, ast.unparse(n)


def commutative(loop):
    """the loop only adds to or removes from sets, or tests and raises: its order cannot be seen"""
    for s in loop.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("add", "discard"):
            continue
        if isinstance(s, (ast.Pass, ast.Continue)):
            continue
        return False
    return True


@prop("C23")
def c23(ctx):
    m = ctx.m
    # --- seeding
    fi = m.need("random_seed")
    names = list(fi.posargs)
    seed, stream, np_ = (mk("sym", "arg:" + n) for n in names[:3])
    n = 0
    cases = [(NONE, const(1234567), "None"), (const("*"), NONE, "'*'"), (const(""), None, "''"), (const(17), const(17), "17"), (const("abc"), const("abc"), "'abc'"), (const(0), const(0), "0"), (seed, seed, "a seed")]
    for given, want, label in cases:
        for st_, sl in ((NONE, "default"), (stream, "given")):
            args = {names[0]: given, names[1]: st_}
            for p in ctx.paths(fi, key="seed" + label + sl, args=args, max_depth=4):
                w = want
                if given is seed:
                    if any(v and f.op == "cmp" and f.a[0] == "eq" and seed in f.a[1:] for f, v in p.facts.items()):
                        continue
                if st_ is stream and any(v and f.op == "cmp" and f.a[0] == "eq" and stream in f.a[1:] for f, v in p.facts.items()):
                    continue
                n += 1
                calls = [(e.base if e.kind != "ucall" or e.base is not None else None, e) for e in p.events if e.kind == "ucall" and (e.name == "seed" or repr(e.base).endswith(".seed"))]
                own = [(b, e) for b, e in calls if "numpy" not in repr(b)]
                nps = [(b, e) for b, e in calls if "numpy" in repr(b)]
                where = ctx.where(fi)
                if not ctx.check(not p.raised, "seeding", label, f"raises {p.outcome[1]!r}", where, pathstr(p)):
                    continue
                if w is None:
                    ctx.check(not calls, "seeding", label, "seeds although no seeding is asked for", where, pathstr(p))
                    continue
                tgt = "random" if st_ is NONE else repr(stream)
                if not ctx.check(len(own) == 1 and repr(own[0][0]).startswith(tgt), "seeding", label, f"seeds {[repr(b) for b, _ in own]} rather than the {sl} stream", where, pathstr(p)):
                    continue
                a = first_arg(own[0][1])
                ctx.check(a is w or (w is NONE and a is None), "seeding", label, f"seeds with {a!r}, {w!r} required", where, pathstr(p))
                for _, e in nps:
                    a = first_arg(e)
                    ctx.check(a is w or (w is NONE and a is None), "seeding", label, f"seeds numpy with {a!r}, {w!r} required", where, pathstr(p))
                off = implied(p.facts, truth(np_)) is False
                no_np = any("numpy" in repr(f).replace(repr(np_), "") and not v for f, v in p.facts.items())
                if off:
                    ctx.check(not nps, "seeding-numpy", label, "seeds numpy although that is switched off", where, pathstr(p))
                elif not no_np:
                    ctx.check(len(nps) == 1, "seeding-numpy", label, "does not seed numpy", where, pathstr(p))
    ctx.count("ways to seed", n)
    ctx.floor("ways to seed", 28)
    # --- the environment seeds
    ini = m.need("Environment.__init__")
    sd = mk("sym", "arg:random_seed")
    args = {}
    from .effects import defaults

    for k, v in defaults(ini).items():
        if k not in ("random_seed", "set_numpy_random_seed"):
            args[k] = v
    n = 0
    mention = {f.qual for f in m.all_funcs() if any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in ("random_seed", "_random_seed") for x in own_nodes(f.node))} - {"random_seed"}
    for p in ctx.paths(ini, key="seed", args=args, max_depth=6, handlers={}, prims={f.qual for f in m.all_funcs()} - mention):
        if p.raised:
            continue
        if any("to_freeze" in repr(f) and v for f, v in p.facts.items()):
            continue
        n += 1
        cs = [e for e in p.events if e.kind in ("call", "ucall") and (e.name or "").split(".")[-1] in ("random_seed", "_random_seed")]
        if not ctx.check(len(cs) == 1, "environment-seeds", ini.qual, f"the random stream is seeded {len(cs)} times", ctx.where(ini), pathstr(p)):
            continue
        a = cs[0].args or {}
        ctx.check(sd in a.values(), "environment-seeds", ini.qual, f"not seeded with the seed given: {a!r}", ctx.where(ini, cs[0].line), pathstr(p))
        np_ = mk("sym", "arg:set_numpy_random_seed")
        known = implied(p.facts, truth(np_))
        ok = np_ in a.values() or known is not None and (a.get("set_numpy_random_seed", TRUE) is (TRUE if known else FALSE))
        ctx.check(ok, "environment-seeds", ini.qual, f"set_numpy_random_seed is not followed: {a!r}", ctx.where(ini, cs[0].line), pathstr(p))
        ctx.check(not set(map(repr, a.values())) & {"arg:randomstream"}, "environment-seeds", ini.qual, "seeds another stream", ctx.where(ini, cs[0].line), pathstr(p))
    ctx.count("ways to create an environment", n)
    ctx.floor("ways to create an environment", 1)
    # --- nothing that happens depends on addresses, hashes, the clock or the order of a set
    E = Effects(m, glob={"._animate": False, "._animate3d": False, "._ui": False, "Pythonista": False, "._trace": False}, opaque={"Environment.quit", "Environment.video_close", "Component.remove_animation_children", "Environment.print_trace"})
    ent = []
    for q in CORE:
        f = m.get(q)
        if f is not None:
            ent.append((f, f.cls, {}, False))
    for c in m.subclasses("_Distribution") + ["_Distribution"]:
        for nm in ("sample", "__call__", "mean", "__init__", "bounded_sample"):
            f = m.classes[c].methods.get(nm)
            if f is not None:
                ent.append((f, c, {}, False))
    for c in ("ComponentGenerator", "Component", "Queue", "Store", "Resource", "State", "Monitor", "PeriodMonitor"):
        for nm, f in m.classes[c].methods.items() if c in m.classes else ():
            if nm in ("__init__", "setup") or nm.startswith("do_"):
                ent.append((f, c, {}, False))
    U = Unordered(m)
    E.reach(ent)
    reach = [f for f in m.all_funcs() if f.qual in E.nfuncs]
    ctx.count("functions that determine what happens", len(reach))
    ctx.floor("functions that determine what happens", 150)
    for f in reach:
        ctx.analysed.add(f.qual)
        bad = False
        for node, what in U.iterations(f):
            bad = True
            ctx.fail("order-of-a-set", f.qual, f"what happens depends on the order of a set: {what}", ctx.where(f, node.lineno))
        if f.name in ("__hash__", "print_info", "__repr__", "__str__"):
            continue
        for node in own_nodes(f.node):
            if isinstance(node, ast.Call):
                nm = ast.unparse(node.func)
                if nm in ("id", "hash") or nm in CLOCKS:
                    bad = True
                    ctx.fail("address-or-clock", f.qual, f"what happens depends on {nm}()", ctx.where(f, node.lineno))
        if not bad:
            ctx.ok("order-of-a-set")


def first_arg(e):
    a = e.args
    if not a:
        return None
    if isinstance(a, tuple):
        pos, kw = a
        if pos:
            return pos[0]
        a = dict(kw)
    for k in (0, "a", "seed"):
        if k in a:
            return a[k]
    return None
