"""Scheduling: clock, event order, time arguments, single pending event, status, control transfer."""
import ast
from lib.core import *
from lib.engine import ENV, STR
from . import prop

INTERACT = ["activate", "hold", "passivate", "interrupt", "resume", "cancel", "standby", "request", "wait", "wait_for", "from_store", "to_store", "remaining_duration"]


def run_api(ctx, qual, yieldless=True, key="", **kw):
    fi = ctx.m.need(qual)
    kw.setdefault("assume", {"_preemptive": False})
    return fi, ctx.paths(fi, key=f"api{yieldless}{key}{kw.get('assume')}", yieldless=yieldless, entry=fi, **kw)


def modes(ctx):
    return (True, False)


def callers_of(ctx, fi):
    out = []
    for f in ctx.m.all_funcs():
        if f is fi:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and ((isinstance(n.func, ast.Attribute) and n.func.attr == fi.name) or (isinstance(n.func, ast.Name) and n.func.id == fi.name)):
                out.append(f)
                break
    return out


def is_event_list(t):
    return t is not None and t.op == "attr" and t.a[1] == "_event_list"


def pushers(ctx):
    """functions whose own body pushes on the event list"""
    out = []
    for f in ctx.m.all_funcs():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and ((isinstance(n.func, ast.Attribute) and n.func.attr == "heappush") or (isinstance(n.func, ast.Name) and n.func.id == "heappush")):
                out.append(f)
                break
    return out


def now_like(t):
    return t.op == "attr" and t.a[0] is ENV and t.a[1] == "_now"


@prop("C01")
def c01(ctx):
    m = ctx.m
    # R1: every entry on the event list is not before now, shown at the push or lifted to the callers
    work = [(f, 0) for f in pushers(ctx)]
    seen = set()
    while work:
        f, d = work.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        ctx.count("functions that put an entry on the event list")
        bad = None
        for y in modes(ctx):
            ps = ctx.paths(f, key=f"r1{y}", yieldless=y, entry=f, assume={"_preemptive": False})
            for p in ps:
                for e in p.events:
                    if e.kind == "push" and is_event_list(e.base):
                        ctx.count("push sites on paths")
                        t0 = e.value.a[0] if e.value.op == "tuple" and e.value.a else None
                        if t0 is None or not ge(e.facts, t0, NOW):
                            bad = bad or (p, e, t0)
        if bad is None:
            ctx.ok("no-push-in-past")
            ctx.sample(f"{f.qual}: every push time >= now")
            continue
        cs = [c for c in callers_of(ctx, f) if c.cls == f.cls or c.cls in ("Environment", "Resource", "State", "Store", "Queue", "Qmember", "Component") or c.cls is None]
        if d < 3 and f.name.startswith("_") and f.name != "__init__" and cs:
            work.extend((c, d + 1) for c in cs)
        else:
            p, e, t0 = bad
            ctx.fail("no-push-in-past", f.qual, f"an event can be put on the event list at {t0!r} without establishing that this is not before the current time", ctx.where(f, e.line), pathstr(p))
    ctx.floor("push sites on paths", 4)

    # R2: the clock is only set to the time of the popped event (or kept / set to inf when there is none / initialised)
    writers = [f for f in m.all_funcs() if "_now" in m.direct_writes(f.node)]
    for f in writers:
        ctx.count("functions that write the clock")
        if f.name == "__init__":
            ok = all(isinstance(n.value, ast.Constant) for n in own_nodes(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_now" for t in n.targets))
            ctx.check(ok, "clock-writer", f.qual, "the clock is initialised with something else than a constant", ctx.where(f))
            continue
        for y in modes(ctx):
            ps = ctx.paths(f, key=f"r2{y}", yieldless=y, entry=f)
            for p in ps:
                for e in p.events:
                    if e.kind == "write" and e.name == "_now":
                        v = e.value
                        good = now_like(v) or v is INF or (v.op == "idx" and v.a[0].op == "popped" and is_event_list(v.a[0].a[0]) and v.a[1] is const(0)) or implied(e.facts, cmp_eq(v, INF)) is True
                        ctx.check(good, "clock-writer", f.qual, f"the clock is set to {v!r}, which is not the time of the event taken from the event list", ctx.where(f, e.line), pathstr(p))
    ctx.floor("functions that write the clock", 2)

    # R3: a time before now raises ValueError, or becomes now when capping is on
    g_cap = mk("attr", mk("glob", "g"), "_default_cap_now")
    funcs = [f for f in m.classes["Component"].methods.values() if "cap_now" in f.posargs + f.kwonly] + [f for f in m.classes["Environment"].methods.values() if "cap_now" in f.posargs + f.kwonly and f.name == "run"]
    for f in funcs:
        cap = mk("sym", "arg:cap_now")
        for p in ctx.paths(f, key="r3", yieldless=False, entry=f, assume={"_preemptive": False}):
            fs = FactState(p.facts)
            pastlit = any(_past_true(a, v) for a, v in p.facts.items())
            on = decide(fs, truth(cap))
            if decide(fs, cmp_eq(cap, NONE)):
                on = decide(fs, truth(g_cap))
            if p.raised and p.outcome[1].name == "ValueError" and pastlit:
                ctx.check(on is False, "past-raises-only-without-cap", f.qual, "a time before now raises although capping is requested (or without consulting it)", ctx.where(f, p.outcome[1].line), pathstr(p))
            elif pastlit and not p.raised:
                honored = any(e.kind == "honored" for e in p.events)
                w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time"]
                if honored or not w:
                    continue
                if ends_interrupted(p):
                    r = [e for e in p.events if e.kind == "write" and e.name == "_remaining_duration"]
                    ctx.check(on is True and bool(r) and r[-1].value is const(0), "past-capped-to-now", f.qual, f"a time before now is accepted as remaining duration {r[-1].value if r else None!r}", ctx.where(f), pathstr(p))
                    continue
                ctx.check(on is True and now_like(w[-1].value), "past-capped-to-now", f.qual, f"a time before now is accepted as {w[-1].value!r} (capping {'on' if on else 'not established'})", ctx.where(f, w[-1].line), pathstr(p))
    ctx.floor("obligations:past-raises-only-without-cap", 3)
    ctx.floor("obligations:past-capped-to-now", 3)


def ends_interrupted(p):
    """the path leaves the component interrupted: it is not scheduled, the remaining duration carries the time"""
    t = [e for e in p.events if e.kind == "tally" and is_attr(e.base, "status")]
    return bool(t) and t[-1].value is const("interrupted")


def _past_true(a, v):
    """the fact says: some time expression < now"""
    if a.op != "cmp" or a.a[0] not in ("lt", "le"):
        return False
    c, parts = tm.lin_parts(a.a[1])
    k = [x for x in parts if now_like(x)]
    base, cc = a.a[1], a.a[2]
    # rebuild L < 0 as (X - now) < 0
    if a.a[0] == "lt" and v:
        L = tm.add(base, tm.lin_const(cc))
    elif a.a[0] == "le" and not v:
        L = tm.neg(tm.add(base, tm.lin_const(cc)))
    else:
        return False
    # L < 0 ; time expression X = L + now must not contain now, or be now + duration
    _, pl = tm.lin_parts(L)
    nowc = sum(cf for t, cf in pl.items() if now_like(t))
    others = [t for t in pl if not now_like(t)]
    if nowc == -1 and others:
        return True
    if nowc == 0 and others and all(t.op == "pure" and t.a[0] == "to_duration" or is_attr(t, "_remaining_duration") or (t.op == "sym" and t.a[0] in ("arg:value", "arg:duration", "arg:delay", "arg:fail_delay")) for t in others):
        return True
    return False


@prop("C02")
def c02(ctx):
    m = ctx.m
    seq = mk("attr", ENV, "_seq")
    # R1 shape of the entries: (time, priority, +-sequence, component, value); sequence grows with each push, negative iff urgent
    for f in pushers(ctx):
        for p in ctx.paths(f, key="r1", yieldless=False, entry=f):
            for e in p.events:
                if e.kind != "push" or not is_event_list(e.base):
                    continue
                ctx.count("push sites on paths")
                v = e.value
                if v.op != "tuple" or len(v.a) < 4:
                    ctx.fail("entry-shape", f.qual, "an entry of the event list is not a (time, priority, sequence, component, ...) tuple", ctx.where(f, e.line))
                    continue
                w = [x for x in p.events if x.kind == "write" and x.name == "_seq" and x.seq < e.seq]
                newseq = w[-1].value if w else None
                good = newseq is not None
                if good:
                    d = tm.sub(newseq, seq)
                    good = tm.is_num_const(d) and tm.num_value(d) > 0
                ctx.check(good, "sequence-grows", f.qual, "an entry is pushed without taking a new, higher sequence number", ctx.where(f, e.line), pathstr(p))
                s2 = v.a[2]
                urg = mk("sym", "arg:urgent")
                u = implied(e.facts, truth(urg))
                if newseq is not None:
                    want = tm.neg(newseq) if u else newseq
                    ctx.check(u is not None and s2 is want, "urgent-first-else-fifo", f.qual, f"sequence of the entry is {s2!r} where {'a negated' if u else 'the'} new sequence number is required (urgent={u})", ctx.where(f, e.line), pathstr(p))
                if "priority" in f.posargs:
                    ctx.check(v.a[1] is mk("sym", "arg:priority"), "priority-second", f.qual, f"second element of the entry is {v.a[1]!r}, not the priority", ctx.where(f, e.line))
                if f.cls == "Component":
                    ctx.check(v.a[3] is SELF, "entry-component", f.qual, f"entry is for {v.a[3]!r}", ctx.where(f, e.line))
    ctx.floor("push sites on paths", 1)

    # R2 priority and urgency given by the caller reach the entry
    table = {
        "Component.__init__": "priority", "Component.activate": "priority", "Component.hold": "priority", "Environment.run": "priority", "Component.resume": "priority",
        "Component.remaining_duration": "priority", "Component.request": "priority", "Component.wait": "priority", "Component.wait_for": "priority",
        "Component.from_store": "fail_priority", "Component.to_store": "fail_priority",
    }
    for q, pname in table.items():
        for y in modes(ctx) if ctx.tier == "thorough" else (False,):
            fi, ps = run_api(ctx, q, y)
            n = 0
            for p in ps:
                hon = any(e.kind == "honored" for e in p.events)
                for e in p.events:
                    if e.kind != "push" or e.value.op != "tuple" or len(e.value.a) < 4:
                        continue
                    n += 1
                    pr, sq = e.value.a[1], e.value.a[2]
                    arg = mk("sym", "arg:" + pname)
                    immediate = _is_honor(e, fi)
                    if immediate:
                        ctx.check(tm.is_num_const(pr) and tm.num_value(pr) == 0 and _sgn(sq) > 0, "honor-priority-0", q, f"an honored component is scheduled with priority {pr!r}, sequence {sq!r}", ctx.where(fi, e.line), pathstr(p))
                        continue
                    okp = pr is arg or (implied(e.facts, cmp_eq(arg, NONE)) is True and pr is const(0))
                    ctx.check(okp, "priority-reaches-event", q, f"event is scheduled with priority {pr!r} instead of the given {pname}", ctx.where(fi, e.line), pathstr(p))
                    u = implied(e.facts, truth(mk("sym", "arg:urgent")))
                    if u is None and implied(e.facts, cmp_eq(mk("sym", "arg:urgent"), NONE)) is True:
                        u = False
                    ctx.check(u is not None and (_sgn(sq) < 0) == u, "urgent-reaches-event", q, f"event has sequence {sq!r} for urgent={u}", ctx.where(fi, e.line), pathstr(p))
            ctx.count("scheduling calls with priority/urgent", 1 if n else 0)
    ctx.floor("scheduling calls with priority/urgent", 11)

    # R2b a request or wait that is honored later gives an ordinary event
    rs = ctx.roles.reschedule
    for f in (ctx.roles.comp_tryrequest, ctx.roles.comp_trywait):
        if f is None:
            continue
        for p in ctx.paths(f, key="honorprio", yieldless=False, entry=f, assume={"_preemptive": False}, extra_handlers={rs.qual: h_call}):
            for e in p.events:
                if e.kind == "call" and e.name == rs.qual and e.base is SELF and "priority" in e.args and "urgent" in e.args:
                    ctx.count("honored by others")
                    ctx.check(tm.is_num_const(e.args["priority"]) and tm.num_value(e.args["priority"]) == 0 and e.args["urgent"] is FALSE, "honor-priority-0", f.qual, f"an honored component is scheduled with priority {e.args['priority']!r}, urgent {e.args['urgent']!r}", ctx.where(f, e.line), pathstr(p))
                elif e.kind == "push" and e.value.op == "tuple" and len(e.value.a) > 3 and e.value.a[3] is SELF:
                    ctx.count("honored by others")
                    ctx.check(tm.is_num_const(e.value.a[1]) and tm.num_value(e.value.a[1]) == 0 and _sgn(e.value.a[2]) > 0, "honor-priority-0", f.qual, f"an honored component is scheduled with priority {e.value.a[1]!r}, sequence {e.value.a[2]!r}", ctx.where(f, e.line), pathstr(p))
    ctx.floor("honored by others", 2)

    # R3 the list is kept a heap
    for f in m.all_funcs():
        if "_event_list" not in m.direct_writes(f.node) or f.name == "__init__":
            continue
        for p in ctx.paths(f, key="r3", yieldless=False, entry=f):
            last_bad = None
            for e in p.events:
                if e.kind in ("mut", "setitem", "delitem") and is_event_list(e.base):
                    last_bad = e
                elif e.kind == "write" and e.name == "_event_list":
                    last_bad = e if not (e.value.op == "new") else last_bad
                elif e.kind == "heapify" and (is_event_list(e.base)):
                    last_bad = None
            if any(e.kind in ("mut", "setitem", "delitem", "heapify", "push", "pop") and is_event_list(e.base) for e in p.events):
                ctx.check(last_bad is None, "heap-kept", f.qual, "the event list is changed in place and not re-heapified before the function ends", ctx.where(f, last_bad.line if last_bad else None), pathstr(p))
                # removal: overwritten slot and popped slot must be complementary
                st_ = [e for e in p.events if e.kind == "setitem" and is_event_list(e.base)]
                mu = [e for e in p.events if e.kind == "mut" and e.name == "pop" and is_event_list(e.base)]
                if len(st_) == 1 and len(mu) == 1:
                    src = st_[0].value
                    idx = mu[0].args[0] if mu[0].args else const(-1)
                    good = (src.op == "idx" and src.a[1] is idx) or (src.op == "elem" and src.a[1] == int(tm.num_value(idx) if tm.is_num_const(idx) else 99))
                    ctx.check(good, "heap-remove-right-entry", f.qual, f"slot filled with {src!r} but slot {idx!r} is dropped: another component's event is lost", ctx.where(f, mu[0].line), pathstr(p))
                    who = [a for a, v in p.facts.items() if v and a.op == "cmp" and a.a[0] == "eq" and SELF in a.a]
                    ctx.check(bool(who), "heap-remove-own-entry", f.qual, "an entry is removed from the event list without checking that it belongs to this component", ctx.where(f, mu[0].line), pathstr(p))
    # R4 the next event is the least entry
    fi = m.need("Environment.step")
    n = 0
    for y in modes(ctx):
        for p in ctx.paths(fi, key=f"r4{y}", yieldless=y, entry=fi):
            pops = [e for e in p.events if e.kind == "pop" and is_event_list(e.base)]
            cur = [e for e in p.events if e.kind == "write" and e.name == "_current_component"]
            if pops and cur and not p.raised:
                n += 1
                v = cur[-1].value
                ismain = v.op == "attr" and v.a[1] == "_main"
                good = (v.op == "idx" and v.a[0].op == "popped" and v.a[1] is const(3)) or (ismain and any(implied(cur[-1].facts, cmp_eq(mk("idx", x, const(0)), INF)) is True for x in _popped(p)))
                ctx.check(good, "least-entry-becomes-current", fi.qual, f"the component made current is {v!r}, not the one of the event taken", ctx.where(fi, cur[-1].line), pathstr(p))
            other = [e for e in p.events if e.kind == "mut" and is_event_list(e.base)]
            ctx.check(not other, "least-entry-becomes-current", fi.qual, "the next event is not taken with heappop", ctx.where(fi, other[0].line if other else None), pathstr(p))
    ctx.count("step paths that take an event", n)
    ctx.floor("step paths that take an event", 2)


def _popped(p):
    out = set()
    for a in p.facts:
        out |= {x for x in subterms(a) if x.op == "popped"}
    for e in p.events:
        if isinstance(e.value, tm.T):
            out |= {x for x in subterms(e.value) if x.op == "popped"}
    return out


def _sgn(t):
    c, parts = tm.lin_parts(t)
    s = [v for k, v in parts.items()]
    return 1 if s and s[0] > 0 else -1 if s else 0


def _is_honor(e, fi):
    """push of a component whose request is honored immediately: scheduled at now although the call's own time arguments say otherwise"""
    t = e.value.a[0]
    if fi.name in ("from_store", "to_store", "request", "wait", "wait_for"):
        return now_like(t) and not any(_past_true(a, v) for a, v in e.facts.items())
    return False


TIME_SPEC = {
    # api -> (absolute arg, relative arg, default)
    "Component.__init__": ("at", "delay", "both"),
    "Component.activate": ("at", "delay", "both"),
    "Component.hold": ("till", "duration", "now"),
    "Environment.run": ("till", "duration", "inf"),
    "Component.request": ("fail_at", "fail_delay", "inf"),
    "Component.wait": ("fail_at", "fail_delay", "inf"),
    "Component.wait_for": ("fail_at", "fail_delay", "inf"),
    "Component.from_store": ("fail_at", "fail_delay", "inf"),
    "Component.to_store": ("fail_at", "fail_delay", "inf"),
}


@prop("C03")
def c03(ctx):
    m = ctx.m
    for q, (absn, reln, kind) in TIME_SPEC.items():
        fi, ps = run_api(ctx, q, False)
        a, r = mk("sym", "arg:" + absn), mk("sym", "arg:" + reln)
        ta, tr = mk("pure", "to_time", a), mk("pure", "to_duration", r)
        n = 0
        for p in ps:
            fs = FactState(p.facts)
            anone = decide(fs, cmp_eq(a, NONE))
            rnone = decide(fs, cmp_eq(r, NONE))
            if p.raised:
                continue
            w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time"]
            rem = [e for e in p.events if e.kind == "write" and e.name == "_remaining_duration"]
            if kind != "both":
                ctx.check(anone is True or rnone is True, "both-time-arguments-rejected", q, f"both {absn} and {reln} given is accepted", ctx.where(fi), pathstr(p))
            if kind == "both":
                if anone is None:
                    continue
                want = NOW if anone else tm.add(ta, OFFSET)
                if not (rnone is True):
                    want = tm.add(want, tr)
            elif anone is False:
                want = tm.add(ta, OFFSET)
            elif rnone is False:
                want = INF if decide(fs, cmp_eq(r, INF)) is True else tm.add(NOW, tr)
            else:
                want = NOW if kind == "now" else INF
            if not w or ends_interrupted(p):
                # hold(interrupted=...) stores the remaining duration instead
                if rem and fi.name == "hold":
                    n += 1
                    v = rem[-1].value
                    good = v is tm.sub(want, NOW) or (v is const(0) and any(_past_true(x, y) for x, y in p.facts.items()))
                    ctx.check(good, "time-argument", q, f"remaining duration is {v!r}; {want!r} - now required", ctx.where(fi, rem[-1].line), pathstr(p))
                continue
            if fi.name == "__init__":
                pr = [e for e in p.events if e.kind == "write" and e.name == "_process"]
                if pr and pr[-1].value is NONE:
                    continue  # a data component: nothing is scheduled
            v = w[-1].value
            n += 1
            if _honor_write(p, w[-1], fi) and kind == "inf" and fi.cls == "Component":
                continue
            capped = now_like(v) and any(_past_true(x, y) for x, y in p.facts.items())
            ctx.check(v is want or capped, "time-argument", q, f"scheduled for {v!r}; with {absn} {'absent' if anone else 'given'} and {reln} {'absent' if rnone else 'given'} it must be {want!r}", ctx.where(fi, w[-1].line), pathstr(p))
            pu = [e for e in p.events if e.kind == "push"]
            if pu:
                ctx.check(pu[-1].value.a[0] is v, "reported-time-is-event-time", q, f"event at {pu[-1].value.a[0]!r} but scheduled time reported as {v!r}", ctx.where(fi, pu[-1].line), pathstr(p))
            else:
                ctx.check(implied(p.facts, cmp_eq(v, INF)) is True, "finite-time-gets-event", q, f"no event is put on the event list for time {v!r}", ctx.where(fi), pathstr(p))
        ctx.count("scheduling calls with time arguments", 1 if n else 0)
    ctx.floor("scheduling calls with time arguments", 9)
    # resume / remaining duration
    fi, ps = run_api(ctx, "Component.resume", False)
    for p in ps:
        w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time"]
        if w and not p.raised:
            want = tm.add(NOW, mk("attr", SELF, "_remaining_duration"))
            ctx.check(w[-1].value is want or now_like(w[-1].value), "time-argument", fi.qual, f"resumed at {w[-1].value!r}", ctx.where(fi, w[-1].line), pathstr(p))
    fi, ps = run_api(ctx, "Component.remaining_duration", False)
    for p in ps:
        w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time"]
        if w and not p.raised:
            want = tm.add(NOW, mk("sym", "arg:value"))
            ctx.check(w[-1].value is want or now_like(w[-1].value), "time-argument", fi.qual, f"rescheduled at {w[-1].value!r}", ctx.where(fi, w[-1].line), pathstr(p))
    # reported times are relative to the last reset of the clock
    getters = {"Component.scheduled_time": "_scheduled_time", "Component.creation_time": "_creation_time", "Component.mode_time": "_mode_time", "Monitor.start_time": "start", "Environment.now": "_now"}
    for q, attr in getters.items():
        fi = m.need(q)
        for p in ctx.paths(fi, key="get", entry=fi):
            if p.raised:
                continue
            base = ENV if fi.cls == "Environment" else SELF
            want = tm.sub(mk("attr", base, attr), OFFSET)
            ctx.check(p.outcome[1] is want, "reported-time-frame", q, f"returns {p.outcome[1]!r} instead of {want!r}", ctx.where(fi), pathstr(p))
            ctx.count("time getters")
    fi = m.need("Component.enter_time")
    for p in ctx.paths(fi, key="get", entry=fi):
        if not p.raised:
            v = p.outcome[1]
            c, parts = tm.lin_parts(v)
            good = parts.get(OFFSET) == -1 and len(parts) == 2 and any(is_attr(t, "enter_time") and cf == 1 for t, cf in parts.items()) and c == 0
            ctx.check(good, "reported-time-frame", fi.qual, f"returns {v!r}", ctx.where(fi), pathstr(p))
            ctx.count("time getters")
    ctx.floor("time getters", 6)
    # time stamps are taken from the clock
    for attr in ("_creation_time", "_mode_time", "enter_time"):
        k = 0
        for f in m.all_funcs():
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(isinstance(t, ast.Attribute) and t.attr == attr for t in tg) and f.cls in ("Component", "Qmember", "Queue"):
                        k += 1
                        _stamp(ctx, f, attr)
        ctx.count("time stamp writers", k)
    ctx.floor("time stamp writers", 3)
    # reset_now changes the frame only
    fi = m.need("Environment.reset_now")
    for p in ctx.paths(fi, key="get", entry=fi):
        if p.raised:
            continue
        w = [e for e in p.events if e.kind == "write"]
        off = [e for e in w if e.name == "_offset"]
        t = mk("pure", "to_time", mk("sym", "arg:new_now"))
        ctx.check(bool(off) and off[-1].value is tm.sub(NOW, t), "reset-now", fi.qual, f"offset becomes {off[-1].value if off else None!r}; now - new_now required", ctx.where(fi), pathstr(p))
        ctx.check(not [e for e in w if e.name in ("_now", "_event_list", "_scheduled_time")], "reset-now", fi.qual, "resetting the reported time changes the clock or the events", ctx.where(fi), pathstr(p))


def _stamp(ctx, f, attr):
    for p in ctx.paths(f, key="stamp", yieldless=False, queues=not (f.cls == "Qmember"), entry=f):
        for e in p.events:
            if e.kind == "write" and e.name == attr:
                ctx.check(now_like(e.value), "time-stamp-is-now", f"{f.qual}.{attr}", f"stamp is {e.value!r}, not the current time", ctx.where(f, e.line), pathstr(p))


def _honor_write(p, e, fi):
    return now_like(e.value) and not any(_past_true(x, y) for x, y in e.facts.items())


# ---------------------------------------------------------------- C04 single pending event
def fresh_component(fi):
    return fi.name == "__init__"


@prop("C04")
def c04(ctx):
    m = ctx.m
    OFF = {"current", "passive", "interrupted"}
    roots = {}
    for q in ["Component.__init__"] + ["Component." + x for x in INTERACT] + ["Environment.run", "Store.rescan", "Store.set_capacity", "Component.leave", "Qmember.insert_in_front_of", "Component.filter"]:
        f = m.get(q)
        if f:
            roots[f.qual] = f
    for r in (ctx.roles.comp_tryrequest, ctx.roles.comp_trywait):
        if r:
            roots[r.qual] = r
    npush = 0
    for f in roots.values():
        for y in modes(ctx):
            raw = f.qual in ("Component.leave", "Qmember.insert_in_front_of")
            ps = ctx.paths(f, key=f"c04{y}", yieldless=y, entry=f, assume={"_preemptive": False}, queues=True)
            for p in ps:
                removed = set()
                pushed = {}
                for e in p.events:
                    if e.kind == "remove":
                        removed.add(e.base)
                        pushed.pop(e.base, None)
                    elif e.kind == "switch":
                        removed = set()
                        pushed = {}
                    elif e.kind == "push" or (e.kind == "mut" and e.name == "append" and e.base.op == "attr" and e.base.a[1] in ("_standbylist",)):
                        comp = e.value.a[3] if e.kind == "push" and e.value.op == "tuple" and len(e.value.a) > 3 else (e.args[0] if e.kind == "mut" else None)
                        if comp is None:
                            continue
                        npush += 1
                        ok = comp in removed or (fresh_component(f) and comp is SELF)
                        if not ok:
                            for s in OFF:
                                if implied(e.facts, cmp_eq(status_of(comp), const(s))) is True:
                                    ok = True
                        if not ok and implied(e.facts, truth(mk("attr", comp, "_on_event_list"))) is False:
                            ok = True
                        ctx.check(ok, "unlink-before-reschedule", f"{f.qual}", f"{comp!r} can be put on the event list while an earlier event of it is still there", ctx.where(f, e.line), pathstr(p))
                        ctx.check(comp not in pushed, "one-event-per-call", f"{f.qual}", f"{comp!r} is put on the event list twice", ctx.where(f, e.line), pathstr(p))
                        pushed[comp] = e
    ctx.count("places where a component is scheduled (on paths)", npush)
    ctx.floor("places where a component is scheduled (on paths)", 60)
    # the flag mirrors membership
    for f in m.all_funcs():
        d = m.direct_writes(f.node)
        if not ({"_on_event_list", "_event_list"} & d) or f.name == "__init__":
            continue
        for p in ctx.paths(f, key="flag", yieldless=False, entry=f):
            for e in p.events:
                if e.kind == "push" and is_event_list(e.base) and e.value.op == "tuple" and len(e.value.a) > 3:
                    w = [x for x in p.events if x.kind == "write" and x.name == "_on_event_list" and x.base is e.value.a[3]]
                    ctx.check(bool(w) and w[-1].value is TRUE, "flag-mirrors-list", f.qual, "a component is put on the event list without being marked as such", ctx.where(f, e.line), pathstr(p))
            pops = [e for e in p.events if e.kind == "pop" and is_event_list(e.base)]
            if pops and not p.raised:
                cur = [x for x in p.events if x.kind == "write" and x.name == "_current_component"]
                w = [x for x in p.events if x.kind == "write" and x.name == "_on_event_list" and x.value is FALSE]
                ctx.check(bool(w) and (not cur or w[-1].base is cur[-1].value), "flag-mirrors-list", f.qual, "the component taken from the event list stays marked as being on it", ctx.where(f, pops[0].line), pathstr(p))
            rm = [e for e in p.events if e.kind in ("mut", "delitem") and is_event_list(e.base)]
            if rm and f.cls == "Component":
                w = [x for x in p.events if x.kind == "write" and x.name == "_on_event_list"]
                ctx.check(bool(w) and w[-1].value is FALSE, "flag-mirrors-list", f.qual, "a component is removed from the event list but stays marked as being on it", ctx.where(f, rm[0].line), pathstr(p))
    # unlinking: when on the list the entry goes, when standby it leaves both standby lists
    rf = ctx.roles.remove
    if rf is None:
        raise AnalysisBroken("no function that unlinks a component from the event list")
    for p in ctx.paths(rf, key="rm", yieldless=False, entry=rf):
        on = implied(p.facts, truth(mk("attr", SELF, "_on_event_list")))
        if p.raised:
            continue
        rm = [e for e in p.events if (e.kind in ("mut", "delitem", "setitem") and is_event_list(e.base)) or (e.kind == "write" and e.name == "_event_list")]
        if on:
            ctx.check(bool(rm), "unlink-removes-entry", rf.qual, "a component that is on the event list is not removed from it", ctx.where(rf), pathstr(p))
        sb = implied(p.facts, cmp_eq(status_of(SELF), const("standby")))
        if on is False and sb is not False:
            for lst in ("_standbylist", "_pendingstandbylist"):
                L = mk("attr", ENV, lst)
                inn = implied(p.facts, mk("cmp", "in", SELF, L))
                out = any((e.kind in ("mut",) and e.base is L and e.name in ("remove", "pop")) or (e.kind == "write" and e.name == lst) or e.kind == "delitem" and e.base is L for e in p.events)
                ctx.check(out or inn is False, "unlink-leaves-standby", rf.qual, f"a standby component is unlinked but may stay in {'the standby list' if lst == '_standbylist' else 'the pending standby list'}", ctx.where(rf), pathstr(p))
    ctx.floor("obligations:unlink-leaves-standby", 4)
