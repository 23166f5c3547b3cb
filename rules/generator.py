"""Component generators: how many components are made, when, of which class, in which environment.

The constructor is followed on all paths for each kind of specification (inter arrival times, spread, equidistant, moments)
and hands over to a process method at a first moment; that method is then followed, with the clock moved at each hold."""
import ast
import itertools
from lib.core import *
from lib.engine import Raise, Ev
from lib.ratio import same
from . import prop
from .monitor import assume, lst

G = mk("glob", "g")
DEF = mk("attr", G, "default_env")


def S(n):
    return mk("sym", "arg:" + n)


ONE_DIST = mk("new", "Constant", "that gives 1")


def defaults():
    d = {n: NONE for n in ("at", "delay", "till", "duration", "number", "iat", "disturbance", "moments")}
    d.update(generator_name=const("g."), force_at=FALSE, force_till=FALSE, suppress_trace=FALSE, suppress_pause_at_step=FALSE, equidistant=FALSE, at_end=S("at_end"), env=ENV)
    return d


def h_ident(eng, st, recv, b, node, fi):
    v = b.get("spec")
    return [(st, v)]


def h_uniform(eng, st, recv, pos, kw, node):
    a = pos[0] if pos else kw.get("lowerbound", kw.get("a"))
    b = pos[1] if len(pos) > 1 else kw.get("upperbound", kw.get("b"))
    st, t = eng.fresh("Uniform", st, node)
    st.heap[(t, "#bounds")] = mk("list", a if a is not None else NONE, b if b is not None else NONE)
    return [(st, t)]


def h_issubclass(eng, st, recv, pos, kw, node):
    return [(st, mk("pure", "issubclass", *pos[:1]))]


def h_interpolate(eng, st, recv, b, node, fi):
    """at the ends of the range: the given values"""
    t, t0, t1, v0, v1 = (b[n] for n in fi.posargs[:5])
    if v0 is v1:
        return [(st, v0)]
    if t is t0 and t is t1:
        return [(st, mk("pure", "degenerate", v0, v1))]
    if t is t0:
        return [(st, v0)]
    if t is t1:
        return [(st, v1)]
    return [(st, mk("pure", "between", t, t0, t1, v0, v1))]


def construct(ctx, args, samples=0, extra=None):
    fi = ctx.m.need("ComponentGenerator.__init__")
    uni = [tm.add(mk("sym", f"u{i}"), OFFSET) for i in range(samples)]

    def pre(eng, st):
        outs = [st]
        facts = [(cmp_eq(ENV, NONE), False)]
        for n, v in args.items():
            if v is S(n):
                facts.append((cmp_eq(v, NONE), False))
        for n in ("at", "delay", "till", "duration"):
            if args[n] is S(n):
                facts += [(cmp_eq(S(n), INF), False), (cmp_lt(S(n), INF), True), (cmp_eq(tm.add(S(n), OFFSET), INF), False)]
        if args["disturbance"] is not NONE:
            facts.append((truth(S("disturbance")), True))
        facts.append((cmp_lt(NOW, INF), True))
        for a, b in itertools.combinations(uni, 2):
            facts.append((cmp_lt(a, b), True))
        for a, v in facts:
            outs = [y for x in outs for y in assume(x, a, v)]
        return outs

    def draw(eng, st, recv, b, node, fi2):
        if recv is ONE_DIST:
            return [(st, const(1))]
        n = st.heap.get((mk("sym", "#draws"), "n"), const(0))
        k = int(tm.num_value(n))
        st = st.clone()
        st.heap[(mk("sym", "#draws"), "n")] = const(k + 1)
        st = eng.event(st, Ev("draw", recv, "uniform", value=st.heap.get((recv, "#bounds"))), node)
        # not drawn in order of size
        order = [uni[(len(uni) - 1 - i)] for i in range(len(uni))]
        return [(st, order[k] if k < len(order) else mk("sym", f"extra draw {k}"))]

    def h_component(eng, st, recv, b, node, fi2):
        st = eng.event(st, Ev("start", recv, "start", args=b), node)
        return [(st, NONE)]

    h = {
        "Environment.spec_to_time": h_ident, "Environment.spec_to_duration": h_ident, "Uniform": h_uniform, "Component.__init__": h_component, "issubclass": h_issubclass,
        "Environment._frame_to_lineno": h_skip, "interpolate": h_interpolate, "_Distribution.__call__": draw, "Uniform.__call__": draw, "Uniform.sample": draw,
    }
    h.update(extra or {})
    e = ctx.engine(handlers=h, yieldless=None, max_depth=7, unroll_known=6, loop_k=3)
    ps = e.run(fi, args=args, cls="ComponentGenerator", pre=pre)
    ctx.analysed.add(fi.qual)
    ctx.npaths += len(ps)
    return fi, ps, uni


def has(p, lit):
    return implied(p.facts, lit)


class Expect:
    """what the documentation says for the arguments"""

    def __init__(self, p, a, kind, num):
        self.p = p
        self.a = a
        self.kind = kind
        self.start = tm.add(a["at"], OFFSET) if a["at"] is not NONE else NOW if a["delay"] is NONE else tm.add(NOW, a["delay"])
        self.till = tm.add(a["till"], OFFSET) if a["till"] is not NONE else INF if a["duration"] is NONE else tm.add(self.start, a["duration"])
        self.N = num

    def errors(self):
        """value of each documented error condition on the path: True, False or None (not decided)"""
        p, a = self.p, self.a
        yield "component_class not callable", called(p, S("component_class"), False)
        yield "at and delay", a["at"] is not NONE and a["delay"] is not NONE
        yield "till and duration", a["till"] is not NONE and a["duration"] is not NONE
        yield "at > till", False if self.till is INF or self.till is self.start else has(p, cmp_lt(self.till, self.start))
        yield "number < 0", False if self.N is INF else has(p, cmp_lt(self.N, const(0)))
        few = self.N is not INF and has(p, cmp_lt(self.N, const(1))) is True
        if few:
            return
        one = has(p, cmp_eq(self.N, const(1)))
        both = a["force_at"] is TRUE and a["force_till"] is TRUE
        if self.kind in ("iat", "disturbed"):
            yield "force_till", a["force_till"] is TRUE
        if self.kind == "spread":
            yield "no end", self.till is INF or self.N is INF
            if both:
                yield "force_at and force_till for one", one
        if self.kind == "equidistant":
            yield "infinite", self.till is INF
            yield "number 1", one
        if self.a["disturbance"] is not NONE:
            yield "component class", sub(p, False)


def infinite(p):
    """the path supposes that a finite moment is infinite"""
    return any(v and f.op == "cmp" and f.a[0] in ("eq", "eq0") and "inf" in repr(f) for f, v in p.facts.items())


def called(p, t, val):
    """callable(t) is val on the path"""
    for f, v in p.facts.items():
        if f"callable({t!r})" in repr(f):
            return v is val
    return None


def sub(p, val):
    for f, v in p.facts.items():
        if "issubclass(" in repr(f):
            return v is val
    return None


def number_of(p, a):
    """the term the number becomes"""
    n = a["number"]
    if n is NONE:
        return INF
    return p.heap.get((SELF, "number"))


def sound_number(t, n):
    """t is the number given, sampled if it is a distribution, as an integer"""
    return t is n or any(x is n for x in subterms(t))


@prop("C37")
def c37(ctx):
    m = ctx.m
    procs = {}
    total = 0
    cfgs = []
    for at, end in itertools.product(("", "at", "delay"), ("", "till", "duration")):
        b = {}
        if at:
            b[at] = S(at)
        if end:
            b[end] = S(end)
        for num in (NONE, S("number")):
            for fa in (TRUE, FALSE):
                cfgs.append(("iat", dict(b, number=num, iat=S("iat"), force_at=fa), 0))
                cfgs.append(("disturbed", dict(b, number=num, iat=S("iat"), force_at=fa, disturbance=S("disturbance")), 0))
        cfgs.append(("equidistant", dict(b, number=S("number"), equidistant=TRUE), 0))
        for fa in (TRUE, FALSE):
            cfgs.append(("equidistant", dict(b, number=S("number"), equidistant=TRUE, force_at=fa, disturbance=S("disturbance")), 0))
        for fa, ft in itertools.product((TRUE, FALSE), repeat=2):
            cfgs.append(("spread", dict(b, number=const(3), force_at=fa, force_till=ft), 3))
            if end and not at:
                cfgs.append(("spread", dict(b, number=const(1), force_at=fa, force_till=ft), 1))
    for x in ({"at": S("at"), "delay": S("delay")}, {"till": S("till"), "duration": S("duration")}, {"force_till": TRUE}):
        cfgs.append(("iat", dict(x, number=S("number"), iat=S("iat")), 0))
    cfgs.append(("spread", dict(till=S("till"), number=NONE), 3))
    cfgs.append(("iat", dict(number=S("number"), iat=S("iat"), generator_name=S("generator_name"), suppress_trace=S("suppress_trace"), suppress_pause_at_step=S("suppress_pause_at_step")), 0))
    for k in (1, 2, 3):
        cfgs.append(("moments", dict(moments=mk("list", *(S(f"m{i}") for i in range(k)))), 0))
    for fa, ft in ((TRUE, FALSE), (FALSE, TRUE)):
        cfgs.append(("spread", dict(till=S("till"), number=ONE_DIST, force_at=fa, force_till=ft), 1))
    for kind, a0, ns in cfgs:
        a = defaults()
        a.update(a0)
        fi, ps, uni = construct(ctx, a, ns)
        where = ctx.where(fi)
        what = f"{kind} " + ", ".join(f"{k}={v!r}".replace("arg:", "") for k, v in a0.items() if v is not FALSE)
        sampled = a["number"] is ONE_DIST
        for p in ps:
            pstr = pathstr(p)
            n = a["number"] if tm.is_num_const(a["number"]) else number_of(p, a)
            if sampled:
                if any("callable(" in repr(f) and not v and "component_class" not in repr(f) for f, v in p.facts.items()):
                    continue
                n = const(1)
                ctx.count("sampled numbers")
            if called(p, S("component_class"), False) is True:
                ctx.check(p.raised, "refused", what, "component_class need not be callable", where, pstr)
                continue
            if n is None:
                n = mk("pure", "int", S("number"))
            x = Expect(p, a, kind, n)
            errs = dict(x.errors())
            if infinite(p):
                continue
            total += 1
            if p.raised:
                ctx.check(any(v is True for v in errs.values()) and p.outcome[1].name == "ValueError", "refused", what, f"refused with {p.outcome[1]!r} although nothing is wrong", where, pstr)
                continue
            bad = [k for k, v in errs.items() if v is True]
            if not ctx.check(not bad, "refused", what, f"accepted although {bad}", where, pstr):
                continue
            starts = [e for e in p.events if e.kind == "start"]
            if not ctx.check(len(starts) == 1, "started", what, f"the generator is started {len(starts)} times", where, pstr):
                continue
            b = starts[0].args
            at, pr = b.get("at"), b.get("process")
            ctx.check(b.get("env") is ENV, "environment", what, f"the generator runs in {b.get('env')!r}", where, pstr)
            for n2, key in (("generator_name", "name"), ("suppress_trace", "suppress_trace"), ("suppress_pause_at_step", "suppress_pause_at_step")):
                if a.get(n2) is S(n2):
                    ctx.check(b.get(key) is S(n2), "kept", what, f"{n2} is not handed over ({b.get(key)!r})", where, pstr)
            if not tm.is_num_const(n) and n is not INF:
                ctx.check(sound_number(n, a["number"]), "number", what, f"the number is {n!r}", where, pstr)
            for attr, val in (("kwargs", None), ("component_class", S("component_class")), ("at_end", S("at_end"))):
                v = p.heap.get((SELF, attr))
                ctx.check(v is val if val is not None else v is not None and "kwargs" in repr(v), "kept", what, f"{attr} becomes {v!r}", where, pstr)
            if n is not INF and has(p, cmp_lt(n, const(1))) is True:
                ctx.check(pr is const("") or pr is NONE, "number", what, f"the process {pr!r} is started although the number is less than 1", where, pstr)
                continue
            ctx.check(n is INF or tm.is_num_const(n) or has(p, cmp_lt(n, const(1))) is False, "number", what, f"the process {pr!r} is started without looking at the number", where, pstr)
            if not ctx.check(at is not None and at is not NONE and pr is not None and pr.op == "const" and f"{pr.a[1]}" in m.classes["ComponentGenerator"].methods, "started", what, f"starts with process {pr!r} at {at!r}", where, pstr):
                continue
            first = tm.add(at, OFFSET)
            pname = pr.a[1]
            proc = m.classes["ComponentGenerator"].methods[pname]
            yl = has(p, truth(mk("attr", ENV, "_yieldless")))
            till = p.heap.get((SELF, "till"))
            if kind in ("iat", "disturbed", "equidistant"):
                if kind == "equidistant":
                    iat = p.heap.get((SELF, "iat"))
                    ctx.check(iat is not None and same(iat, tm.div(tm.sub(x.till, x.start), tm.sub(n, const(1)))), "equidistant", what, f"interval {iat!r}", where, pstr)
                    ctx.check(till is INF or till is x.till, "till", what, f"till becomes {till!r}", where, pstr)
                    want = x.start
                else:
                    ctx.check(till is x.till, "till", what, f"till becomes {till!r}, {x.till!r} required", where, pstr)
                    ctx.check(p.heap.get((SELF, "iat")) is S("iat"), "kept", what, "iat is changed", where, pstr)
                    want = x.start
                    if kind == "iat" and a["force_at"] is FALSE:
                        want = tm.add(x.start, mk("app", S("iat")) if called(p, S("iat"), True) else S("iat"))
                past = False if x.till is INF or kind != "iat" else has(p, cmp_lt(x.till, want))
                if past is True:
                    ctx.check(first is x.till, "ends", what, f"ends at {first!r} rather than at till", where, pstr)
                    procs.setdefault("end", set()).add(pname)
                    continue
                ctx.check(past is not None or a["force_at"] is TRUE, "till", what, "the first moment is not compared with till", where, pstr)
                ctx.check(first is want or same(first, want), "first", what, f"starts at {first!r}, {want!r} required", where, pstr)
            else:
                iv = lst(p, "intervals", SELF)
                if not ctx.check(iv is not None and len(iv) > 0, "spread", what, f"intervals {iv!r}", where, pstr):
                    continue
                times = []
                t = first
                for i in iv:
                    t = tm.add(t, i)
                    times.append(t)
                if kind == "moments":
                    ms = [tm.add(q, OFFSET) for q in a["moments"].a]
                    ok = set(times) == set(ms) and len(times) == len(ms)
                    ok = ok and all(u is v or has(p, cmp_lt(v, u)) is False for u, v in zip(times, times[1:]))
                    ctx.check(ok, "moments", what, f"generates at {times!r}", where, pstr)
                else:
                    fa, ft = a["force_at"] is TRUE, a["force_till"] is TRUE
                    want = list(uni)
                    ok = len(times) == len(uni)
                    if ok and fa:
                        ok = times[0] is x.start
                    elif ok and not (ft and len(uni) == 1):
                        ok = times[0] is uni[0]
                    if ok and ft:
                        ok = times[-1] is x.till
                    elif ok and not (fa and len(uni) == 1):
                        ok = times[-1] is uni[-1]
                    if ok and not fa and not ft:
                        ok = times == want
                    ctx.check(ok, "spread", what, f"generates at {times!r}", where, pstr)
                    for e in p.events:
                        if e.kind == "draw":
                            bd = e.value.a if e.value is not None else ()
                            ctx.check(len(bd) == 2 and bd[0] is x.start and bd[1] is x.till, "spread", what, f"the moments are drawn from {bd!r}", where, pstr)
            for attr in uses(ctx, proc):
                v = p.heap.get((SELF, attr))
                ctx.count("attributes used by a process")
                if ctx.check(v is not None, "kept", what, f"{pname} uses {attr}, which is not set", where, pstr) and attr in ("force_at", "disturbance"):
                    w = TRUE if kind == "equidistant" and attr == "force_at" else a[attr]
                    ok = v is w or w in (TRUE, FALSE) and v is mk("pure", "bool", w)
                    ctx.check(ok, "kept", what, f"{attr} becomes {v!r}", where, pstr)
            k2 = "spread" if kind in ("spread", "moments") else ("iat" if a["disturbance"] is NONE else "disturbed") if kind == "equidistant" else kind
            procs.setdefault(k2, set()).add(pname)
            ctx.check((yl is True and not proc.is_generator) or (yl is False and proc.is_generator), "yieldless", what, f"process {pname} with yieldless {yl}", where, pstr)
    ctx.count("generators constructed", total)
    ctx.floor("generators constructed", 200)
    ctx.floor("sampled numbers", 2)
    nproc = 0
    for kind, names in sorted(procs.items()):
        for n in sorted(names):
            nproc += 1
            process(ctx, kind, m.classes["ComponentGenerator"].methods[n])
    ctx.count("processes", nproc)
    ctx.floor("processes", 7)
    ctx.floor("generations", 40)


def uses(ctx, proc):
    """attributes of the generator that are used by a process and set by nothing but the initialization"""
    m = ctx.m
    if not hasattr(ctx, "_gen_uses"):
        ctx._gen_uses = {}
    if proc.qual in ctx._gen_uses:
        return ctx._gen_uses[proc.qual]
    others = set()
    members = set()
    for c in m.mro("ComponentGenerator"):
        if c not in m.classes:
            continue
        members |= set(m.classes[c].methods)
        for st in m.classes[c].node.body:
            for t in getattr(st, "targets", [getattr(st, "target", None)]):
                if isinstance(t, ast.Name):
                    members.add(t.id)
        for n, f in m.classes[c].methods.items():
            if not (c == "ComponentGenerator" and n == "__init__"):
                others |= {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    used, todo, seen = set(), [proc], set()
    while todo:
        f = todo.pop()
        if f.qual in seen or not f.posargs:
            continue
        seen.add(f.qual)
        me = f.posargs[0]
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                g = m.classes["ComponentGenerator"].methods.get(x.attr)
                if g is not None:
                    todo.append(g)
                elif x.attr not in members and x.attr not in others and not x.attr.startswith("_") and x.attr not in ("env", "status", "mode"):
                    used.add(x.attr)
    ctx._gen_uses[proc.qual] = sorted(used)
    return ctx._gen_uses[proc.qual]


def process(ctx, kind, fi):
    """what is generated when"""
    KW = mk("attr", SELF, "kwargs")
    CC = mk("attr", SELF, "component_class")
    TILL = mk("attr", SELF, "till")
    END = mk("attr", SELF, "at_end")

    def tick(eng, st, t, node):
        st = eng.event(st, Ev("tick", None, "tick", value=t), node)
        st.heap[(ENV, "_now")] = t
        return st

    def h_hold(eng, st, recv, b, node, f2):
        t, d = b.get("till", NONE), b.get("duration", NONE)
        now = eng.rd(ENV, "_now", st)
        st = st.clone()
        if d is not None and d is not NONE:
            t2 = tm.add(now, d)
        elif t is not None and t is not NONE:
            t2 = tm.add(t, OFFSET)
        else:
            t2 = now
        return [(tick(eng, st, t2, node), NONE)]

    def h_activate(eng, st, recv, b, node, f2):
        pr = b.get("process")
        if pr is None or pr is NONE or pr.op != "const":
            return None
        at, delay = b.get("at", NONE), b.get("delay", const(0))
        now = eng.rd(ENV, "_now", st)
        t = tm.add(at, OFFSET) if at is not NONE and at is not None else tm.add(now, delay)
        st = tick(eng, st.clone(), t, node)
        st = eng.event(st, Ev("becomes", None, str(pr.a[1])), node)
        return [(st, Raise("ReplacedProcess", node.lineno, "", True))]

    cell = mk("sym", "#samples")

    def sampler(what):
        def h(eng, st, recv, pos, kw, node):
            n = st.heap.get((cell, what), const(0))
            k = int(tm.num_value(n))
            st = st.clone()
            st.heap[(cell, what)] = const(k + 1)
            return [(st, mk("sym", f"{what}{k}"))]

        return h

    N = 3 if ctx.tier != "quick" else 2
    for num in range(1, N + 1):
        iv = [mk("sym", f"interval{i}") for i in range(num)]
        L = mk("new", "list", "intervals")

        def pre(eng, st):
            st.heap[(SELF, "number")] = const(num)
            st.heap[(SELF, "intervals")] = L
            st.heap[(L, "#items")] = mk("list", *iv)
            return [st]

        h = {"Component.hold": h_hold, "Component.activate": h_activate, ".iat": sampler("iat"), ".disturbance": sampler("disturbance")}
        e = ctx.engine(handlers=h, yieldless=None, max_depth=6, unroll_known=6, loop_k=N + 1)
        e.on_yield = lambda eng, st, t: [st]
        ps = e.run(fi, cls="ComponentGenerator", pre=pre)
        ctx.analysed.add(fi.qual)
        ctx.npaths += len(ps)
        for p in ps:
            judge(ctx, p, kind, fi, num, iv, CC, KW, TILL, END)


def judge(ctx, p, kind, fi, num, iv, CC, KW, TILL, END):
    where = ctx.where(fi)
    ps = pathstr(p)
    what = f"{fi.qual} ({kind})"
    now = NOW
    isd = [v for f, v in p.facts.items() if f.op == "cmp" and f.a[0] == "isinst" and f.a[1] is CC or "hasattr(" in repr(f) and CC in list(subterms(f))]
    made, ended, ticks, env, cls = [], 0, [], DEF, CC
    becomes = None
    envs = []
    for e in p.events:
        if e.kind == "write" and e.base is G and e.name == "default_env":
            env = e.value
        elif e.kind == "tick":
            now = e.value
            ticks.append(now)
            ctx.check(env is DEF, "environment", what, "the default environment is not put back before time goes on", where, ps)
        elif e.kind == "becomes":
            becomes = e.name
        elif e.kind == "ucall":
            pos, kw = e.args if e.args else ((), ())
            if e.base is END:
                ended += 1
                ctx.check(not pos and not kw, "ends", what, "at_end is called with arguments", where, ps)
            elif e.base is CC and not kw and not pos and isd == [True]:
                cls = "sample"
            elif e.base is CC or (e.base.op == "app" and e.base.a[0] is CC):
                kw = dict(kw)
                ok = kw.pop("**", None) is KW
                at = kw.pop("at", None)
                ctx.check(ok and not kw and not pos, "arguments", what, f"created with {e.args!r}", where, ps)
                ctx.check(isd == [e.base is not CC], "class", what, "a distribution of classes is not sampled" if isd != [False] else "the class is not the one given", where, ps)
                ctx.check(env is ENV, "environment", what, "created while the default environment is another one", where, ps)
                made.append((now, at))
    ctx.check(env is DEF, "environment", what, "the default environment is not put back", where, ps)
    if p.raised and p.outcome[1].name != "ReplacedProcess":
        ctx.fail("ends", what, f"fails with {p.outcome[1]!r}", where, ps)
        return
    if becomes is not None:
        ff = ctx.m.classes["ComponentGenerator"].methods.get(becomes)
        ends = 0
        if ff is not None:
            for q in ctx.paths(ff, key="fin", cls="ComponentGenerator", yieldless=None):
                c = sum(1 for e in q.events if e.kind == "ucall" and e.base is END)
                mk_ = sum(1 for e in q.events if e.kind == "ucall" and (e.base is CC or e.base.op == "app" and e.base.a[0] is CC))
                ctx.check(c == 1 and mk_ == 0 and not q.raised, "ends", ff.qual, f"at the end at_end is called {c} times and {mk_} components are created", ctx.where(ff), pathstr(q))
                ends = c
        ended += ends
    ctx.count("generations")
    ctx.check(ended == 1, "ends", what, f"at_end is called {ended} times", where, ps)
    # --- what is required
    want = []
    early = False
    t = NOW
    nt = []
    if kind == "end":
        ctx.check(not made, "till", what, "creates components after till", where, ps)
        return
    if kind == "spread":
        for i in iv:
            t = tm.add(t, i)
            want.append((t, None))
            nt.append(t)
    else:
        k = 0
        c_iat = called(p, mk("attr", SELF, "iat"), True)
        c_dis = called(p, mk("attr", SELF, "disturbance"), True)
        force = has(p, truth(mk("attr", SELF, "force_at")))
        while True:
            iat = mk("sym", f"iat{k}") if c_iat else mk("attr", SELF, "iat")
            if kind == "disturbed":
                dis = mk("sym", f"disturbance{k}") if c_dis else mk("attr", SELF, "disturbance")
                at = tm.add(tm.add(t, dis), const(0) if force else iat)
                r = has(p, cmp_lt(TILL, at))
                if r is True:
                    early = True
                    break
                if not ctx.check(r is False, "till", what, f"the moment {at!r} is not compared with till", where, ps):
                    return
                want.append((t, tm.sub(at, OFFSET)))
                if len(want) >= num:
                    break
                t = tm.add(t, iat)
                nt.append(t)
                k += 1
                continue
            want.append((t, None))
            if len(want) >= num:
                break
            t2 = tm.add(t, iat)
            r = has(p, cmp_lt(TILL, t2))
            if r is True:
                early = True
                break
            if not ctx.check(r is False, "till", what, f"the moment {t2!r} is not compared with till", where, ps):
                return
            t = t2
            nt.append(t)
            k += 1
        if early:
            nt.append(TILL)
    ctx.check(made == want, "generated", what, f"with number {num}, components are created at {made!r}; {want!r} required", where, ps)
    ctx.check(ticks == nt, "moments", what, f"time goes on to {ticks!r}; {nt!r} required", where, ps)
