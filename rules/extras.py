"""Events, registers and period monitors."""
import ast
from lib.core import *
from lib.engine import Raise, Ev
from . import prop
from .objmon import A

ACT = mk("sym", "the action")
PASSED = ("name", "at", "delay", "priority", "urgent", "suppress_trace", "suppress_pause_at_step", "skip_standby", "mode", "cap_now")


def h_note(eng, st, recv, b, node, f2):
    st = eng.event(st, Ev("call", recv, f2.qual, args=dict(b)), node)
    return [(st, NONE)]


def calls(p, q):
    return [e for e in p.events if e.kind == "call" and e.name == q]


@prop("C43")
def c43(ctx):
    m = ctx.m
    fi = m.need("Event.__init__")
    where = ctx.where(fi)
    for yl in (True, False):
        args = {n: mk("sym", "given " + n) for n in PASSED}
        args["env"] = ENV
        args["action"] = ACT
        args = {k: v for k, v in args.items() if k in fi.posargs + fi.kwonly}
        ctx.check(len(args) == len(PASSED) + 2, "event-scheduled", fi.qual, f"does not take {sorted(set(PASSED) - set(args))}", where)
        ps = ctx.paths(fi, key=f"event{yl}", args=args, cls="Event", extra_handlers={"Component.__init__": h_note}, yieldless=yl, queues=False)
        for p in ps:
            if implied(p.facts, cmp_eq(ENV, NONE)) is True:
                continue
            ctx.count("events made")
            if p.raised:
                ctx.fail("event-scheduled", fi.qual, f"fails with {p.outcome[1].name}", where, pathstr(p))
                continue
            cs = calls(p, "Component.__init__")
            if not ctx.check(len(cs) == 1, "event-scheduled", fi.qual, f"initializes the component {len(cs)} times", where, pathstr(p)):
                continue
            a = cs[0].args
            bad = [n for n in PASSED if a.get(n) is not args.get(n)]
            ctx.check(not bad and a.get("env") is ENV, "event-scheduled", fi.qual, f"does not hand over {bad or 'env'}", where, pathstr(p))
            pr = a.get("process")
            f = m.method("Event", pr.a[1]) if pr is not None and pr.op == "const" and isinstance(pr.a[1], str) else None
            ctx.check(f is not None and f.is_generator != yl, "event-scheduled", fi.qual, f"({'yieldless' if yl else 'yield'}) starts {pr!r}", where, pathstr(p))
            ctx.check(p.heap.get((SELF, "_action")) is ACT, "action", fi.qual, "does not keep the action", where, pathstr(p))
            ctx.check(p.heap.get((SELF, "_action_taken")) is FALSE, "action-taken", fi.qual, "a new event says that its action was taken", where, pathstr(p))
            if f is not None:
                process(ctx, f)
    for n, attr in (("action", "_action"), ("action_string", "_action_string"), ("action_taken", "_action_taken")):
        f = m.get("Event." + n)
        if f is None:
            continue
        for v in (NONE, mk("sym", "new value")) if n != "action_taken" else (NONE,):
            for p in ctx.paths(f, key="event" + n, args={"value": v} if n != "action_taken" else {}, cls="Event", queues=False):
                if v is not NONE and implied(p.facts, cmp_eq(v, NONE)) is True:
                    continue
                want = A(SELF, attr) if v is NONE else v
                ctx.count("event queries")
                ok = not p.raised and p.outcome[1] is want and p.heap.get((SELF, attr), A(SELF, attr)) is want
                ctx.check(ok, "action", f.qual, f"gives {p.outcome[1]!r}", ctx.where(f), pathstr(p))
    ctx.floor("events made", 2)
    ctx.floor("event processes", 2)


def process(ctx, f):
    taken = mk("attr", SELF, "_action_taken")

    def pre(eng, st):
        st.heap[(SELF, "_action")] = ACT
        st.heap[(SELF, "_action_taken")] = FALSE
        return [st]

    where = ctx.where(f)
    done = 0
    for p in ctx.paths(f, key="event process", cls="Event", pre=pre, queues=False, yieldless=not f.is_generator):
        ctx.count("event processes")
        evs = list(p.events)
        us = [(i, e) for i, e in enumerate(evs) if e.kind == "ucall" and e.base is ACT]
        ctx.check(len(us) == 1, "action-once", f.qual, f"the action is called {len(us)} times", where, pathstr(p))
        if len(us) != 1:
            continue
        i, e = us[0]
        pos, kw = e.args if e.args else ((), ())
        ctx.check(not pos and not kw, "action-once", f.qual, "the action is called with arguments", where, pathstr(p))
        early = any(x.kind == "write" and x.name == "_action_taken" and x.value is TRUE for x in evs[:i])
        ctx.check(not early, "action-taken", f.qual, "the action counts as taken before it is", where, pathstr(p))
        ctx.check(not any(x.kind == "yield" for x in evs[:i]), "action-once", f.qual, "the action is taken later than the event", where, pathstr(p))
        if not p.raised:
            done += 1
            ctx.check(p.heap.get((SELF, "_action_taken")) is TRUE, "action-taken", f.qual, "the action does not count as taken afterwards", where, pathstr(p))
    ctx.check(done > 0, "action-once", f.qual, "never ends", where)


REG = mk("new", "list", "registry")


@prop("C45")
def c45(ctx):
    m = ctx.m
    other = mk("sym", "another object")
    for cls in ("Monitor", "Queue", "Component", "State", "Resource"):
        for n, inside in (("register", False), ("register", True), ("deregister", True), ("deregister", False)):
            f = m.method(cls, n)
            if f is None:
                ctx.fail("registered-once", f"{cls}.{n}", "there is no such method", "salabim/salabim.py")
                continue
            for k in range(3 if inside else 2):
                items = [mk("sym", f"object {i}") for i in range(k + (0 if inside else 1))]
                if inside:
                    items.insert(k if k < 2 else 1, SELF)

                def pre(eng, st, items=items):
                    st.heap[(REG, "#items")] = mk("list", *items)
                    outs = [st]
                    for x in items:
                        if x is not SELF:
                            outs = [z for y in outs for z in assume(y, cmp_eq(SELF, x), False)]
                    for i, x in enumerate(items):
                        for y in items[:i]:
                            if SELF not in (x, y):
                                outs = [z for s in outs for z in assume(s, cmp_eq(x, y), False)]
                    return outs

                ps = ctx.paths(f, key=f"reg{inside}{items}", args={f.posargs[1]: REG}, cls=cls, pre=pre, queues=False, extra_handlers={".remove": h_remove, ".index": h_index, ".count": h_count, "isinstance": h_list})
                for p in ps:
                    ctx.count("registrations")
                    ok = not p.raised
                    got = p.heap.get((REG, "#items"))
                    label = f"({n}, {'registered' if inside else 'not registered'}, {len(items)} in the register)"
                    if inside == (n == "register"):
                        ctx.check(p.raised and p.outcome[1].name == "ValueError", "registered-once", f.qual, f"{label} is not refused with ValueError", ctx.where(f), pathstr(p))
                        ctx.check(got is not None and got.a == tuple(items), "registered-once", f.qual, f"{label} changes the register although refused", ctx.where(f), pathstr(p))
                        continue
                    if not ctx.check(ok, "registered-once", f.qual, f"{label} fails with {p.outcome[1]!r}", ctx.where(f), pathstr(p)):
                        continue
                    if got is None:
                        ctx.count("registers not followed")
                    else:
                        want = tuple(items) + (SELF,) if n == "register" else tuple(x for x in items if x is not SELF)
                        ctx.check(got.a == want, "registered-once", f.qual, f"{label} leaves {got.a!r}", ctx.where(f), pathstr(p))
                    ctx.check(p.outcome[1] is SELF, "registered-once", f.qual, f"{label} does not return the object", ctx.where(f), pathstr(p))
            other = mk("sym", "no list")
            for p in ctx.paths(f, key="reg no list", args={f.posargs[1]: other}, cls=cls, queues=False):
                if implied(p.facts, mk("cmp", "isinst", other, ("list",))) is False:
                    ctx.count("no list")
                    ctx.check(p.raised and p.outcome[1].name == "TypeError", "registered-once", f.qual, "something that is not a list is not refused", ctx.where(f), pathstr(p))
    ctx.floor("registrations", 20)


def h_list(eng, st, recv, pos, kw, node):
    if pos and pos[0] is REG:
        return [(st, TRUE if len(pos) == 2 and "list" in repr(pos[1]) else FALSE)]
    return None


def h_remove(eng, st, recv, pos, kw, node):
    it = st.heap.get((recv, "#items"))
    if recv is REG and it is not None and len(pos) == 1 and pos[0] in it.a:
        st = eng.event(st, Ev("mut", recv, "remove", args=tuple(pos)), node)
        xs = list(it.a)
        xs.remove(pos[0])
        st.heap[(recv, "#items")] = mk("list", *xs)
        return [(st, NONE)]
    if recv is REG and it is not None and len(pos) == 1:
        return [(st, Raise("ValueError", node.lineno, st.fn))]
    return None


def h_index(eng, st, recv, pos, kw, node):
    it = st.heap.get((recv, "#items"))
    if recv is REG and it is not None and len(pos) == 1 and pos[0] in it.a:
        return [(st, const(list(it.a).index(pos[0])))]
    if recv is REG and it is not None and len(pos) == 1:
        return [(st, Raise("ValueError", node.lineno, st.fn))]
    return None


def h_count(eng, st, recv, pos, kw, node):
    it = st.heap.get((recv, "#items"))
    if recv is REG and it is not None and len(pos) == 1:
        return [(st, const(list(it.a).count(pos[0])))]
    return None


PM = [mk("new", "PeriodMonitor", "pm0"), mk("new", "PeriodMonitor", "pm1")]


def per(i, j):
    return mk("sym", f"monitor of period {j} of pm{i}")


@prop("C44")
def c44(ctx):
    m = ctx.m
    if "PeriodMonitor" not in m.classes:
        ctx.fail("periods", "PeriodMonitor", "there is no such class", "salabim/salabim.py")
        return
    X_, W_ = mk("sym", "x"), mk("sym", "weight")
    PMS = mk("new", "list", "period monitors")
    lists = [mk("new", "list", f"per period {i}") for i in range(2)]
    durations = [mk("new", "list", f"periods {i}") for i in range(2)]

    def world(current):
        def pre(eng, st):
            h = st.heap
            h[(SELF, "period_monitors")] = PMS
            h[(PMS, "#items")] = mk("list", *PM)
            for i, p in enumerate(PM):
                h[(p, "perperiod")] = lists[i]
                h[(lists[i], "#items")] = mk("list", *(per(i, j) for j in range(3)))
                h[(p, "iperiod")] = const(current[i])
                h[(p, "periods")] = durations[i]
                h[(durations[i], "#items")] = mk("list", *(mk("sym", f"duration {j} of pm{i}") for j in range(3)))
                h[(p, "m")] = SELF
            return [st]

        return pre

    def h_any(eng, st, recv, pos, kw, node):
        st = eng.event(st, Ev("asked", recv, node.func.attr if isinstance(node.func, ast.Attribute) else "", args=(tuple(pos), tuple(sorted(kw.items(), key=lambda z: z[0])))), node)
        return [(st, NONE)]

    def asked(p, name):
        return [e for e in p.events if e.kind == "asked" and e.name == name]

    def given(e, names, defaults):
        """arguments of a call, by name"""
        d = dict(defaults)
        for n, v in zip(names, e.args[0]):
            d[n] = v
        d.update(dict(e.args[1]))
        return d

    hs = {".tally": h_any, ".reset": h_any, ".org_tally": h_any, ".org_reset": h_any, ".monitor": h_any, ".hold": h_any}
    # --- a value goes to the current period of each period monitor, and to the monitor itself
    f = m.need("PeriodMonitor.new_tally")
    for cur in ((0, 0), (2, 1)):
        for wt in (True, False):
            a = {f.posargs[0]: SELF, f.posargs[1]: X_}
            a[f.posargs[2]] = W_ if wt else const(1)
            for p in ctx.paths(f, key=f"pm tally{cur}", args=a, cls="Monitor", pre=world(cur), queues=False, extra_handlers=hs):
                ctx.count("tallies with period monitors")
                where = ctx.where(f)
                if p.raised:
                    ctx.fail("periods", f.qual, f"fails with {p.outcome[1].name}", where, pathstr(p))
                    continue
                want = sorted(repr(per(i, cur[i])) for i in range(2))
                ts = asked(p, "tally")
                ctx.check(sorted(repr(e.base) for e in ts) == want, "periods", f.qual, f"the value goes to {[e.base for e in ts]!r}, {want} required", where, pathstr(p))
                os_ = asked(p, "org_tally")
                ctx.check(len(os_) == 1 and os_[0].base is SELF, "parent-keeps-record", f.qual, f"the monitor itself is tallied {len(os_)} times", where, pathstr(p))
                for e in ts + os_:
                    d = given(e, ("value", "weight"), {"weight": const(1)})
                    v = d.get("value", d.get("x"))
                    ctx.check(v is X_ and d.get("weight") is a[f.posargs[2]], "periods", f.qual, f"{e.base!r} gets {d!r}", where, pathstr(p))
    f = m.need("PeriodMonitor.new_reset")
    MO, SO = mk("sym", "monitor"), mk("sym", "stats_only")
    names = [n for n in f.posargs[1:]]
    for p in ctx.paths(f, key="pm reset", args={f.posargs[0]: SELF, "monitor": MO, "stats_only": SO}, cls="Monitor", pre=world((1, 2)), queues=False, extra_handlers=hs):
        ctx.count("resets with period monitors")
        where = ctx.where(f)
        if p.raised:
            ctx.fail("periods", f.qual, f"fails with {p.outcome[1].name}", where, pathstr(p))
            continue
        rs = asked(p, "reset")
        want = sorted(repr(per(i, j)) for i in range(2) for j in range(3))
        ctx.check(sorted(repr(e.base) for e in rs) == want, "reset-all-periods", f.qual, f"resets {[e.base for e in rs]!r}", where, pathstr(p))
        os_ = asked(p, "org_reset")
        ok = len(os_) == 1 and os_[0].base is SELF
        if ok:
            d = given(os_[0], ("monitor", "stats_only"), {})
            ok = d.get("monitor") is MO and d.get("stats_only") is SO
        ctx.check(ok, "parent-keeps-record", f.qual, "the monitor itself is not reset with the arguments given", where, pathstr(p))
        for e in rs:
            d = given(e, ("monitor", "stats_only"), {"monitor": NONE})
            ctx.check(d.get("stats_only") is SO and d.get("monitor") is not MO, "reset-all-periods", f.qual, f"{e.base!r} is reset with {d!r}", where, pathstr(p))
    # --- the start of a period
    f = m.need("_PeriodComponent.start_period")
    parent = mk("new", "Monitor", "parent")
    VALUE = mk("sym", "current value of the parent")

    def h_value(eng, st, recv, b, node, f2):
        return [(st, VALUE)] if b.get("self") is parent or recv is parent else [(st, mk("sym", "another value"))]

    for level, old, new in ((True, 0, 1), (True, 2, 0), (False, 0, 1), (True, 0, 0)):
        def pre(eng, st):
            world((old, 0))(eng, st)
            st.heap[(SELF, "pm")] = PM[0]
            st.heap[(PM[0], "m")] = parent
            st.heap[(parent, "_tally")] = VALUE
            st.heap[(parent, "_level")] = TRUE if level else FALSE
            return [st]

        for p in ctx.paths(f, key=f"pm start{level}{old}{new}", args={f.posargs[1]: const(new)}, pre=pre, queues=False, extra_handlers={**hs, "Monitor.__call__": h_value, "Monitor.get": h_value}):
            where = ctx.where(f)
            ctx.count("starts of a period")
            label = f"({'level' if level else 'non level'}, from {old} to {new})"
            if p.raised:
                ctx.fail("periods", f.qual, f"{label} fails with {p.outcome[1].name}", where, pathstr(p))
                continue
            ctx.check(p.heap.get((PM[0], "iperiod")) is const(new), "period-starts", f.qual, f"{label} the current period becomes {p.heap.get((PM[0], 'iperiod'))!r}", where, pathstr(p))
            on = {}
            for e in asked(p, "monitor"):
                on[e.base] = (e.args[0] or (dict(e.args[1]).get("value"),))[0]
            want = {per(0, old): FALSE, per(0, new): TRUE}
            ctx.check(on == want, "period-starts", f.qual, f"{label} switches {on!r}", where, pathstr(p))
            ts = [e for e in asked(p, "tally") if e.base is per(0, new)]
            if level:
                v = given(ts[0], ("value", "weight"), {}) if ts else {}
                ctx.check(len(ts) == 1 and v.get("value") is VALUE, "period-starts", f.qual, f"{label} the new period does not start with the current value of the monitor: {v.get('value')!r}", where, pathstr(p))
            ctx.check(not [e for e in asked(p, "tally") if e.base is not per(0, new)] and (level or not ts), "period-starts", f.qual, f"{label} tallies {[e.base for e in asked(p, 'tally')]!r}", where, pathstr(p))
    # --- the periods follow each other
    for q in ("_PeriodComponent.process_yielded", "_PeriodComponent.process_yieldless"):
        f = m.get(q)
        if f is None:
            continue

        def pre(eng, st):
            world((0, 0))(eng, st)
            st.heap[(SELF, "pm")] = PM[0]
            return [st]

        def h_hold(eng, st, recv, pos, kw, node):
            # the eighth time the component is cancelled
            out = h_any(eng, st, recv, pos, kw, node)
            if sum(1 for e in out[0][0].events() if e.kind == "asked" and e.name == "hold") >= 8:
                return [(out[0][0], Raise("Cancelled", node.lineno, st.fn))]
            return out

        n = 0
        for p in ctx.paths(f, key="pm process", cls="_PeriodComponent", pre=pre, queues=False, yieldless=not f.is_generator, extra_handlers={**hs, "_PeriodComponent.start_period": h_note, ".hold": h_hold}, loop_k=9, unroll_known=8):
            if f.is_generator:
                held = False
                for e in p.events:
                    if e.kind == "call" and e.name.endswith("start_period"):
                        ctx.check(not held, "periods-in-order", q, "goes on without having held", ctx.where(f), pathstr(p))
                    held = e.kind == "asked" and e.name == "hold" or held and e.kind != "yield"
            seq = [e for e in p.events if e.kind == "asked" and e.name == "hold" or e.kind == "call" and e.name in ("_PeriodComponent.start_period", "Component.hold")]
            ctx.count("rounds of periods")
            n = max(n, len(seq))
            for i, e in enumerate(seq):
                k = (i // 2) % 3
                if i % 2 == 0:
                    ok = e.name.endswith("start_period") and list(e.args.values())[-1] is const(k)
                else:
                    if e.kind == "asked":
                        d = given(e, ("duration",), {})
                    else:
                        d = e.args
                    ok = e.name.split(".")[-1] == "hold" and d.get("duration") is mk("sym", f"duration {k} of pm0")
                if not ctx.check(ok, "periods-in-order", q, f"step {i} is {e.name} {e.args!r}", ctx.where(f), pathstr(p)):
                    break
        ctx.count("steps of " + q, n)
        ctx.count("processes followed", 1 if n >= 8 else 0)
    created(ctx, parent)
    ctx.floor("tallies with period monitors", 2)
    ctx.floor("starts of a period", 4)


def created(ctx, parent):
    """a new period monitor"""
    f = ctx.m.need("PeriodMonitor.__init__")
    where = ctx.where(f)
    D = mk("list", const(1), const(2))
    N = mk("list", const("first"), const("second"))

    def h_env(eng, st, recv, b, node, f2):
        return [(st, ENV)]

    OLD = mk("new", "list", "other period monitors")
    for level, yl, named, second in ((True, True, True, False), (False, True, True, True), (True, False, True, True), (True, True, False, False)):
        def pre(eng, st):
            st.heap[(parent, "_level")] = TRUE if level else FALSE
            if second:
                st.heap[(parent, "period_monitors")] = OLD
                st.heap[(OLD, "#items")] = mk("list", PM[0])
            return [st]

        def h_has(eng, st, recv, pos, kw, node):
            if len(pos) >= 2 and pos[0] is parent and pos[1] is const("period_monitors"):
                if getattr(node.func, "id", "") == "getattr" and len(pos) == 3:
                    return [(st, OLD if second else pos[2])]
                if len(pos) == 2 and getattr(node.func, "id", "") == "hasattr":
                    return [(st, TRUE if second else FALSE)]
            return None

        ps = ctx.paths(f, key=f"pm init{level}{yl}{named}{second}", args={"parent_monitor": parent, "periods": D, "period_monitor_names": N if named else NONE, "env": ENV}, pre=pre, queues=False, yieldless=yl, extra_handlers={"_set_env": h_env, "hasattr": h_has, "getattr": h_has})
        for p in ps:
            ctx.count("period monitors made")
            if p.raised:
                ctx.fail("periods", f.qual, f"fails with {p.outcome[1].name}", where, pathstr(p))
                continue
            ps_ = pathstr(p)
            pl = p.heap.get((SELF, "perperiod"))
            items = p.heap.get((pl, "#items")) if pl is not None else None
            news = {e.base: e.args for e in p.events if e.kind == "new" and e.name == "Monitor"}
            if items is not None and all(x in news for x in items.a):
                ctx.check(len(items.a) == 2 and len(set(items.a)) == 2, "monitor-per-period", f.qual, f"{len(items.a)} monitors for 2 periods", where, ps_)
                for i, x in enumerate(items.a):
                    a = news[x]
                    ctx.check((a.get("level", FALSE) is TRUE) == level, "monitor-per-period", f.qual, "a period has a monitor of another kind", where, ps_)
                    ctx.check(a.get("env") is ENV, "monitor-per-period", f.qual, "a monitor of a period is in another environment", where, ps_)
                    ctx.check(a.get("monitor") is FALSE, "monitor-per-period", f.qual, "the monitor of a period is on before the period starts", where, ps_)
                    if named:
                        ctx.check(a.get("name", a.get(0)) is N.a[i], "monitor-per-period", f.qual, f"period {i} is named {a.get('name')!r}", where, ps_)
            pcs = [e for e in p.events if e.kind == "new" and e.name == "_PeriodComponent"]
            if ctx.check(len(pcs) == 1, "periods-in-order", f.qual, f"{len(pcs)} components for the periods", where, ps_):
                a = pcs[0].args
                pr = a.get("process")
                g = ctx.m.method("_PeriodComponent", pr.a[1]) if pr is not None and pr.op == "const" and isinstance(pr.a[1], str) else None
                ctx.check(a.get("pm") is SELF and a.get("env") is ENV, "periods-in-order", f.qual, "the component for the periods belongs to something else", where, ps_)
                ctx.check(g is None or g.is_generator != yl, "periods-in-order", f.qual, f"({'yieldless' if yl else 'yield'}) starts {pr!r}", where, ps_)
            ctx.check(p.heap.get((SELF, "periods")) is D and p.heap.get((SELF, "m")) is parent and p.heap.get((SELF, "iperiod")) is const(0), "periods", f.qual, "the periods, the monitor or the current period is not set", where, ps_)
            ws = {e.name: e.value for e in p.events if e.kind == "write" and e.base is parent}
            for n in ("tally", "reset"):
                if second:
                    ctx.check(n not in ws and "org_" + n not in ws, "tallied-once", f.qual, f"a second period monitor replaces {n} again: values are recorded twice", where, ps_)
                else:
                    ctx.check(n in ws and repr(ws.get("org_" + n)) == f"bound({parent!r}, <Func Monitor.{n}>)", "tallied-once", f.qual, f"{n} of the monitor is not kept", where, ps_)
            added = [e for e in p.events if e.kind == "mut" and e.name == "append" and e.args == (SELF,)]
            ctx.check(len(added) == 1, "tallied-once", f.qual, f"is added {len(added)} times to the period monitors of the monitor", where, ps_)
    ctx.floor("period monitors made", 4)
