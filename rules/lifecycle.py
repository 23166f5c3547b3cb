"""Status coherence, control transfer, abandoned requests, interrupt/resume, run."""
import ast
from lib.core import *
from lib.engine import ENV, STR
from . import prop
from .sched import run_api, modes, INTERACT, is_event_list, now_like, ends_interrupted

STATUSES = ("data", "current", "standby", "passive", "interrupted", "scheduled", "requesting", "waiting")
ITEM_GIVEN = truth(mk("sym", "arg:item"))
CURRENT = mk("attr", ENV, "_current_component")


def possible(facts, comp=SELF):
    """statuses the component can have at the start of the path"""
    fs = FactState(facts)
    out = set()
    for s in STATUSES:
        d = decide(fs, cmp_eq(status_of(comp), const(s)))
        if d is True:
            return {s}
        if d is None:
            out.add(s)
    return out


def feasible(p):
    """an item given to to_store is a component and therefore never false"""
    return implied(p.facts, ITEM_GIVEN) is not False and bool(possible(p.facts))


def is_status(e, comp):
    b = e.base
    return e.kind == "tally" and (is_attr(b, "status", comp) or (b.op == "new" and b.a[0] == "_StatusMonitor" and comp is SELF))


def pushes(p, comp=None):
    return [e for e in p.events if e.kind == "push" and is_event_list(e.base) and e.value.op == "tuple" and len(e.value.a) > 3 and (comp is None or e.value.a[3] is comp)]


FINAL = {
    "activate": {"scheduled"}, "hold": {"scheduled", "interrupted"}, "passivate": {"passive"}, "interrupt": {"interrupted"}, "resume": {"scheduled"},
    "cancel": {"data"}, "standby": {"standby"}, "request": {"requesting", "scheduled"}, "wait": {"waiting"}, "wait_for": {"waiting"},
    "from_store": {"requesting", "scheduled"}, "to_store": {"requesting", "scheduled"},
}
OFFLIST = {"data", "passive", "interrupted", "standby"}


def ended_is_terminated(ctx):
    """when the process of the current component has ended (and only then), the component is terminated"""
    m, tf = ctx.m, ctx.roles.terminate
    fi = m.need("Environment.step")
    for y in (False, True):
        for p in ctx.paths(fi, key=f"r4{y}", yieldless=y, entry=fi):
            cur = [e for e in p.events if e.kind == "write" and e.name == "_current_component"]
            if p.raised or not cur:
                continue
            c = cur[-1].value
            proc, glet = mk("attr", c, "_process"), mk("attr", c, "_glet")
            term = [e for e in p.events if (e.kind == "call" and tf and e.name == tf.qual and c in e.args.values()) or (e.kind == "tally" and is_attr(e.base, "status", c) and e.value is const("data"))]
            last, how = None, None
            for e in p.events:
                if e.kind == "switch" and e.base is glet:
                    dead = {v for f, v in p.facts.items() if f.op == "cmp" and f.a[0] == "truthy" and any(x.op in ("attr", "attrv") and "dead" in x.a and glet in x.a for x in subterms(f))}
                    last, how = e, (True if dead == {True} else False if dead == {False} else None)
                elif e.kind == "ucall" and isinstance(e.base, tm.T) and e.base is proc:
                    last, how = e, True
                elif e.kind == "ucall" and (proc in (e.args[0] if e.args else ()) or (isinstance(e.base, tm.T) and e.base.op == "attr" and e.base.a[0] is proc)):
                    last, how = e, False
                    if isinstance(e.base, tm.T) and e.base.op == "attr" and e.base.a[1] == "send" and c.op == "idx" and c.a[0].op == "popped" and e.args[0]:
                        ctx.count("processes resumed with a value")
                        v = e.args[0][0]
                        first = not any(x.kind == "except" and x.seq < e.seq for x in p.events)
                        ctx.check(not first or v is mk("idx", c.a[0], const(4)), "resumed-with-its-value", fi.qual, f"the process is resumed with {v!r} and not with the value of its event", ctx.where(fi, e.line), pathstr(p))
                elif e.kind == "except" and last is not None and how is False and "StopIteration" in e.name:
                    how = True
            if last is None:
                continue
            ctx.count("turns of a process")
            if how is None:
                asked = any(glet in subterms(f) for f in p.facts)
                ctx.check(asked, "ended-is-terminated", fi.qual, "it is not checked whether the process has ended, in which case the component is to be terminated", ctx.where(fi, last.line), pathstr(p))
            else:
                ctx.check(bool(term and term[-1].seq > last.seq) == how, "ended-is-terminated", fi.qual, "the process has ended but the component is not terminated" if how else "the component is terminated although its process has not ended", ctx.where(fi, last.line), pathstr(p))
    ctx.floor("turns of a process", 8)


def mode_set(ctx):
    """the mode given with a call is tallied, with its time; without it the mode is not touched"""
    for api in INTERACT:
        f = ctx.m.get("Component." + api)
        if f is None or "mode" not in f.posargs + list(getattr(f, "kwonly", [])):
            continue
        MODE = mk("sym", "arg:mode")
        fi, ps = run_api(ctx, "Component." + api, False)
        n = 0
        for p in ps:
            if p.raised or not feasible(p):
                continue
            if api == "cancel" and not [e for e in p.events if is_status(e, SELF)]:
                continue  # cancelling a data component does nothing
            sm = [e for e in p.events if e.kind == "note" and e.name == "set_mode" and e.base is SELF]
            ts = [e for e in p.events if e.kind == "tally" and is_attr(e.base, "mode", SELF)]
            none = implied(p.facts, cmp_eq(MODE, NONE))
            n += 1
            if none is not None and not sm:
                ok = not ts if none else len(ts) == 1 and ts[0].value is MODE
            else:
                ok = len(sm) == 1 and MODE in [v for k, v in sm[0].args.items() if k != "self"] and not ts
            ctx.check(ok, "mode-set", fi.qual, "the mode given with the call does not become the mode of the component (exactly once)", ctx.where(fi), pathstr(p))
        ctx.count("calls with a mode", 1 if n else 0)
    fi = ctx.m.need("Component.set_mode")
    V = mk("sym", "arg:value")
    for p in ctx.paths(fi, key="mode", entry=fi, yieldless=False):
        if p.raised:
            continue
        none = implied(p.facts, cmp_eq(V, NONE))
        ts = [e for e in p.events if e.kind == "tally" and is_attr(e.base, "mode", SELF)]
        mt = [e for e in p.events if e.kind == "write" and e.name == "_mode_time" and e.base is SELF]
        ok = (not ts and not mt) if none else none is False and len(ts) == 1 and ts[0].value is V and len(mt) == 1 and mt[0].value is NOW
        ctx.check(ok, "mode-set", fi.qual, "setting a mode does not change mode and mode time exactly when a mode is given", ctx.where(fi), pathstr(p))
    ctx.floor("calls with a mode", 12)


@prop("C05")
def c05(ctx):
    m = ctx.m
    mode_set(ctx)
    for api, fin in FINAL.items():
        for y in modes(ctx):
            fi, ps = run_api(ctx, "Component." + api, y)
            for p in ps:
                if p.raised or not feasible(p):
                    continue
                honored = any(e.kind == "honored" and e.base is SELF for e in p.events)
                ts = [e for e in p.events if is_status(e, SELF)]
                start = possible(p.facts)
                w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time" and e.base is SELF]
                pu = pushes(p, SELF)
                if honored:
                    ctx.count("paths where the call is honored at once")
                    bad = [e for e in p.events if e.seq > [x for x in p.events if x.kind == "honored"][-1].seq and (is_status(e, SELF) or e in pu or e in w)]
                    ctx.check(not bad, "final-status", fi.qual, "the component is scheduled because its request was honored, but is changed again afterwards", ctx.where(fi), pathstr(p))
                    continue
                if not ts:
                    ok = start <= (fin | ({"interrupted"} if api == "resume" else set())) and not pu and not w
                    ctx.check(ok, "final-status", fi.qual, f"the call ends without setting the status (status before: {'|'.join(sorted(start))})", ctx.where(fi), pathstr(p))
                    continue
                v = ts[-1].value
                got = None
                for s in STATUSES:
                    if v is const(s) or implied(p.facts, cmp_eq(v, const(s))) is True:
                        got = s
                ctx.count("paths that set a status")
                if not ctx.check(got in fin, "final-status", fi.qual, f"the call leaves the component {v!r}; {' or '.join(sorted(fin))} expected", ctx.where(fi, ts[-1].line), pathstr(p)):
                    continue
                if api == "hold":
                    i = implied(p.facts, truth(mk("sym", "arg:interrupted")))
                    ctx.check(i is not None and (got == "interrupted") == i, "final-status", fi.qual, f"hold with interrupted={i} leaves the component {got}", ctx.where(fi), pathstr(p))
                last = w[-1].value if w else None
                if got in OFFLIST:
                    want = NOW if got == "standby" else INF
                    ctx.check(last is want, "scheduled-time-of-status", fi.qual, f"a {got} component has scheduled time {last!r}", ctx.where(fi), pathstr(p))
                    ctx.check(not pu, "no-event-when-not-scheduled", fi.qual, f"a {got} component is put on the event list", ctx.where(fi, pu[0].line if pu else None), pathstr(p))
                    if not (start <= {"current", "passive", "interrupted", "data"}):
                        ctx.check(any(e.kind == "remove" and e.base is SELF for e in p.events), "no-event-when-not-scheduled", fi.qual, f"a component becomes {got} but its pending event stays on the event list", ctx.where(fi), pathstr(p))
                    if got == "standby":
                        ap = [e for e in p.events if e.kind == "mut" and e.name in ("append", "insert") and is_attr(e.base, "_standbylist")]
                        ctx.check(len(ap) == 1 and SELF in ap[0].args, "standby-listed", fi.qual, "a standby component is not put (exactly once) on the standby list", ctx.where(fi), pathstr(p))
                else:
                    ctx.check(last is not None, "scheduled-time-of-status", fi.qual, f"a {got} component has no scheduled time", ctx.where(fi), pathstr(p))
                    if last is not None:
                        fin_t = implied(p.facts, cmp_eq(last, INF)) is True
                        ctx.check(fin_t or (len(pu) == 1 and pu[0].value.a[0] is last), "event-when-scheduled", fi.qual, f"a {got} component for {last!r} has no event at that time", ctx.where(fi), pathstr(p))
                        if fin_t:
                            ctx.check(not pu, "event-when-scheduled", fi.qual, "an event at infinity is put on the event list", ctx.where(fi), pathstr(p))
    # creation
    for y in modes(ctx):
        fi, ps = run_api(ctx, "Component.__init__", y)
        for p in ps:
            if p.raised:
                continue
            new = [e for e in p.events if e.kind == "new" and e.name == "_StatusMonitor"]
            ini = new[0].args.get("initial_tally") if new else None
            ts = [e for e in p.events if is_status(e, SELF)]
            st = ts[-1].value if ts else ini
            pr = [e for e in p.events if e.kind == "write" and e.name == "_process" and e.base is SELF]
            none = bool(pr) and pr[-1].value is NONE
            pu = pushes(p, SELF)
            w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time" and e.base is SELF]
            if none:
                ctx.check(st is const("data") and not pu and w and w[-1].value is INF, "created-data", fi.qual, f"a component without process is created {st!r} with {len(pu)} events", ctx.where(fi), pathstr(p))
            else:
                ctx.check(st is const("scheduled"), "created-scheduled", fi.qual, f"a component with a process is created {st!r}", ctx.where(fi), pathstr(p))
                fin_t = bool(w) and implied(p.facts, cmp_eq(w[-1].value, INF)) is True
                ctx.check(fin_t or len(pu) == 1, "created-scheduled", fi.qual, "a component with a process is created without an event", ctx.where(fi), pathstr(p))
    # taking an event
    fi = m.need("Environment.step")
    for y in modes(ctx):
        for p in ctx.paths(fi, key=f"r4{y}", yieldless=y, entry=fi):
            cur = [e for e in p.events if e.kind == "write" and e.name == "_current_component"]
            if p.raised or not cur:
                continue
            for ce in cur:
                c = ce.value
                ts = [e for e in p.events if is_status(e, c)]
                ctx.check(bool(ts) and ts[-1].value is const("current"), "current-is-current", fi.qual, f"{c!r} is made the current component without getting status current", ctx.where(fi, ce.line), pathstr(p))
                w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time" and e.base is c]
                ctx.check(bool(w) and w[-1].value is INF, "current-is-current", fi.qual, "the scheduled time of the current component is not inf", ctx.where(fi, ce.line), pathstr(p))
                ctx.count("ways to become current")
                # the process is resumed (or the run ends) after that
                run = [e for e in p.events if (e.kind == "switch" and is_attr(e.base, "_glet", c)) or (e.kind == "ucall" and any(is_attr(x, "_process", c) for x in subterms(e.base))) or (e.kind == "ucall" and e.args and any(isinstance(x, tm.T) and is_attr(x, "_process", c) for x in e.args[0])) or (e.kind == "write" and e.name == "running" and e.value is FALSE)]
                ctx.check(bool(run) and run[0].seq > max([ce.seq] + [e.seq for e in ts]), "current-runs", fi.qual, f"{c!r} becomes current but its process is not resumed", ctx.where(fi, ce.line), pathstr(p))
    tf = ctx.roles.terminate
    if tf:
        c = mk("sym", "arg:" + tf.posargs[1])
        for p in ctx.paths(tf, key="t", yieldless=False, entry=tf):
            if p.raised:
                continue
            ts = [e for e in p.events if is_status(e, c)]
            w = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time" and e.base is c]
            pr = [e for e in p.events if e.kind == "write" and e.name == "_process" and e.base is c]
            ctx.check(bool(ts) and ts[-1].value is const("data"), "ended-is-data", tf.qual, "a component whose process ended does not become data", ctx.where(tf), pathstr(p))
            ctx.check(bool(w) and w[-1].value is INF, "ended-is-data", tf.qual, "a component whose process ended keeps a scheduled time", ctx.where(tf), pathstr(p))
            ctx.check(bool(pr) and pr[-1].value is NONE, "ended-is-data", tf.qual, "a component whose process ended keeps it", ctx.where(tf), pathstr(p))
    ended_is_terminated(ctx)
    # predicates
    for s in STATUSES:
        fi = m.get(f"Component.is{s}")
        if fi is None:
            continue
        ctx.count("status predicates")
        for p in ctx.paths(fi, key="is", entry=fi):
            if p.raised:
                continue
            r = p.outcome[1]
            want = cmp_eq(status_of(SELF), const(s))
            if r in (TRUE, FALSE):
                ok = implied(p.facts, want) is (r is TRUE)
            else:
                ok = truth(r) is want
            ctx.check(ok, "status-predicate", fi.qual, f"returns {r!r}", ctx.where(fi), pathstr(p))
    ctx.floor("paths that set a status", 3000)
    ctx.floor("ways to become current", 4)
    ctx.floor("status predicates", 6)


# ---------------------------------------------------------------- C06 control transfer
BOOK = ("write", "tally", "push", "enter", "leave", "mut", "setitem", "delitem", "remove", "check_fail")
PRIVATE_OK = {"_from_store_item", "_to_store_item", "last_s0"}


@prop("C06")
def c06(ctx):
    m = ctx.m
    blocking = ["activate", "hold", "passivate", "cancel", "standby", "request", "wait", "wait_for", "from_store", "to_store"]
    subj = [m.need("Component." + a) for a in blocking] + [x for x in (ctx.roles.comp_tryrequest, ctx.roles.comp_trywait) if x]
    for fi in subj:
        for y in modes(ctx):
            ps = ctx.paths(fi, key=f"api{y}{ {'_preemptive': False} }", yieldless=y, entry=fi, assume={"_preemptive": False})
            for p in ps:
                if not feasible(p):
                    continue
                sw = [e for e in p.events if e.kind == "switch"]
                if not y:
                    ctx.check(not sw, "no-switch-with-yield", fi.qual, "control is switched away inside a call of a model with yield", ctx.where(fi), pathstr(p))
                    continue
                if p.raised:
                    ctx.check(not sw, "switch-last", fi.qual, "an error is raised after the process was suspended", ctx.where(fi), pathstr(p))
                    continue
                honored = any(e.kind == "honored" and e.base is SELF for e in p.events)
                cur = implied(p.facts, cmp_eq(SELF, CURRENT))
                acted = [e for e in p.events if is_status(e, SELF)]
                if honored:
                    ctx.check(not sw, "suspended-once", fi.qual, "the process is suspended again after its request was honored at once", ctx.where(fi), pathstr(p))
                    continue
                if not acted:
                    ctx.check(not sw, "suspended-once", fi.qual, "the process is suspended although nothing was scheduled", ctx.where(fi), pathstr(p))
                    continue
                ctx.check(len(sw) <= 1, "suspended-once", fi.qual, "the process is suspended more than once", ctx.where(fi), pathstr(p))
                if sw:
                    ctx.count("paths that suspend the caller")
                    ctx.check(implied(sw[0].facts, cmp_eq(SELF, CURRENT)) is True, "only-current-suspends", fi.qual, "a call on another component suspends the calling process", ctx.where(fi, sw[0].line), pathstr(p))
                    after = [e for e in p.events if e.seq > sw[0].seq and e.kind in BOOK and not (e.kind == "write" and e.base.op == "new") and not (e.kind == "write" and e.name in PRIVATE_OK) and not (e.kind in ("mut", "setitem") and e.base.op == "new")]
                    ctx.check(not after, "switch-last", fi.qual, f"bookkeeping is done only after the process is resumed: {after[0] if after else ''}", ctx.where(fi, after[0].line if after else None), pathstr(p))
                else:
                    ctx.count("paths that do not suspend the caller")
                    ctx.check(cur is False, "current-suspends", fi.qual, "the current component makes a blocking call but is not suspended", ctx.where(fi), pathstr(p))
    ctx.floor("paths that suspend the caller", 500)
    ctx.floor("paths that do not suspend the caller", 500)


# ---------------------------------------------------------------- C07 abandoned requests
REQ = {"request", "wait", "from_store", "to_store"}


@prop("C07")
def c07(ctx):
    m = ctx.m
    keep = {"_requests": "keep_request", "_waits": "keep_wait"}
    for api in ("activate", "hold", "passivate", "cancel", "standby", "request", "wait", "wait_for", "from_store", "to_store"):
        fi, ps = run_api(ctx, "Component." + api, False)
        for p in ps:
            if p.raised or not feasible(p):
                continue
            start = possible(p.facts)
            ts = [e for e in p.events if is_status(e, SELF) or (e.kind in ("honored",))]
            if not ts:
                continue
            cf = [e for e in p.events if e.kind == "check_fail" and e.base is SELF]
            exempt = start <= {"current", "passive", "data", "interrupted"}
            if api == "activate" and not exempt:
                kr = implied(p.facts, truth(mk("sym", "arg:keep_request")))
                kw = implied(p.facts, truth(mk("sym", "arg:keep_wait")))
                if kr is True or kw is True:
                    # the pending request or wait is kept only when asked for, and the other one is not touched then
                    exempt = True
            ctx.count("calls on components with a pending request")
            ctx.check(exempt or bool(cf), "pending-request-abandoned", fi.qual, f"a component that may be requesting or waiting ({'|'.join(sorted(start))}) gets a new state but stays in the queues of what it requested", ctx.where(fi), pathstr(p))
            if cf and api in REQ | {"wait_for"}:
                en = [e for e in p.events if e.kind == "enter" and e.base is SELF]
                ctx.check(not en or cf[0].seq < en[0].seq, "pending-request-abandoned", fi.qual, "the earlier request is dropped only after the new one is entered", ctx.where(fi), pathstr(p))
            if cf:
                rm = [e for e in p.events if e.kind == "remove" and e.base is SELF]
                ctx.check(bool(rm), "pending-request-abandoned", fi.qual, "a pending request is dropped but its time-out event stays scheduled", ctx.where(fi), pathstr(p))
            if api in REQ:
                f0 = [e for e in p.events if e.kind == "write" and e.name == "_failed" and e.base is SELF]
                en = [e for e in p.events if (e.kind in ("enter", "honored", "try") and e.base is SELF)]
                ok = bool(f0) and f0[-1].value is FALSE and (not cf or f0[-1].seq > cf[-1].seq) and (not en or f0[-1].seq < en[0].seq)
                ctx.check(ok, "failed-cleared", fi.qual, "the failed flag of an earlier call is not cleared before the new request is made", ctx.where(fi), pathstr(p))
    # what abandoning does
    cff = ctx.roles.check_fail
    if cff is None:
        raise AnalysisBroken("no function that fails pending requests")
    QATTR = {"_requests": "_requesters", "_waits": "_waiters", "_from_stores": "_from_store_requesters", "_to_stores": "_to_store_requesters"}
    for p in ctx.paths(cff, key="cf", yieldless=False, entry=cff):
        if p.raised:
            continue
        anyp = False
        for a, qa in QATTR.items():
            has = None
            for f, v in p.facts.items():
                if f.op == "cmp" and f.a[0] in ("truthy", "more") and is_attr(f.a[1], a, SELF) and (f.a[0] == "truthy" or f.a[2] == 0):
                    has = v
            if has is None:
                continue
            w = [e for e in p.events if (e.kind == "write" and e.name == a and e.base is SELF) or (e.kind == "mut" and e.name == "clear" and is_attr(e.base, a, SELF))]
            if not has:
                continue
            anyp = True
            ctx.count("pending kinds on fail paths")
            lv = [e for e in p.events if e.kind == "leave" and e.base is SELF and is_attr(e.value, qa)]
            notin = any(f.op == "cmp" and f.a[0] == "in" and f.a[1] is SELF and is_attr(f.a[2], qa) and v is False for f, v in p.facts.items())
            ctx.check(bool(lv) or notin, "fail-leaves-queue", cff.qual, f"a component whose {a[1:]} failed stays in the {qa[1:]} queue", ctx.where(cff), pathstr(p))
            good = bool(w) and (w[-1].kind == "mut" or (w[-1].value.op == "new" or w[-1].value.op in ("list", "tuple")))
            ctx.check(good, "fail-clears-pending", cff.qual, f"{a[1:]} is not emptied when it fails", ctx.where(cff), pathstr(p))
        f = [e for e in p.events if e.kind == "write" and e.name == "_failed" and e.base is SELF]
        if anyp:
            ctx.check(bool(f) and f[-1].value is TRUE, "fail-sets-flag", cff.qual, "a pending request fails but failed() is not set", ctx.where(cff), pathstr(p))
        else:
            ctx.check(not f, "fail-sets-flag", cff.qual, "failed() is changed although nothing was pending", ctx.where(cff), pathstr(p))
    ctx.floor("pending kinds on fail paths", 8)
    # expiry
    fi = m.need("Environment.step")
    for y in modes(ctx):
        for p in ctx.paths(fi, key=f"r4{y}", yieldless=y, entry=fi):
            if p.raised:
                continue
            for ce in [e for e in p.events if e.kind == "write" and e.name == "_current_component" and e.value.op == "idx" and e.value.a[0].op == "popped"]:
                c = ce.value
                if implied(p.facts, cmp_eq(c, mk("attr", ENV, "_main"))) is True:
                    continue
                cf = [e for e in p.events if e.kind == "check_fail" and e.base is c]
                run = [e for e in p.events if (e.kind == "switch" and is_attr(e.base, "_glet", c)) or (e.kind == "ucall" and any(is_attr(x, "_process", c) for x in subterms(e.base)))]
                ctx.check(bool(cf) and (not run or cf[0].seq < run[0].seq), "expiry-fails-request", fi.qual, "a component is resumed at its time-out without failing its pending request first", ctx.where(fi, ce.line), pathstr(p))
    ctx.floor("obligations:expiry-fails-request", 4)
    fi = m.need("Component.failed")
    for p in ctx.paths(fi, key="get", entry=fi):
        if not p.raised:
            ctx.check(p.outcome[1] is mk("attr", SELF, "_failed"), "failed-reported", fi.qual, f"returns {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
    # a honored request is not failed
    for r in (ctx.roles.comp_tryrequest, ctx.roles.comp_trywait):
        if r is None:
            continue
        for p in ctx.paths(r, key="c04False", yieldless=False, entry=r, assume={"_preemptive": False}):
            f = [e for e in p.events if e.kind == "write" and e.name == "_failed"]
            ctx.check(not [e for e in f if e.value is not FALSE], "honored-not-failed", r.qual, "an honored request is marked failed", ctx.where(r), pathstr(p))


# ---------------------------------------------------------------- C29 interrupt / resume
@prop("C29")
def c29(ctx):
    m = ctx.m
    lvl = mk("attr", SELF, "_interrupt_level")
    sch = mk("attr", SELF, "_scheduled_time")
    rem = mk("attr", SELF, "_remaining_duration")

    def w(p, name):
        return [e for e in p.events if e.kind == "write" and e.name == name and e.base is SELF]

    for y in modes(ctx):
        fi, ps = run_api(ctx, "Component.interrupt", y)
        for p in ps:
            st = possible(p.facts)
            if p.raised:
                ctx.check(not (st & {"scheduled", "interrupted"}), "interruptible", fi.qual, f"interrupting a component that may be {'|'.join(sorted(st))} is refused", ctx.where(fi), pathstr(p))
                continue
            ctx.check(st <= {"scheduled", "interrupted"}, "interruptible", fi.qual, f"a component that may be {'|'.join(sorted(st - {'scheduled', 'interrupted'}))} is interrupted", ctx.where(fi), pathstr(p))
            l = w(p, "_interrupt_level")
            ctx.count("interrupt paths")
            if st == {"interrupted"}:
                ctx.check(bool(l) and l[-1].value is tm.add(lvl, const(1)), "nested-interrupt", fi.qual, f"interrupting again sets the level to {l[-1].value if l else None!r}", ctx.where(fi), pathstr(p))
                ctx.check(not w(p, "_remaining_duration") and not w(p, "_interrupted_status") and not w(p, "_scheduled_time"), "nested-interrupt", fi.qual, "interrupting again changes the remaining duration", ctx.where(fi), pathstr(p))
            elif st == {"scheduled"}:
                ctx.check(bool(l) and l[-1].value is const(1), "interrupt-saves", fi.qual, f"level {l[-1].value if l else None!r} after the first interrupt", ctx.where(fi), pathstr(p))
                r = w(p, "_remaining_duration")
                ctx.check(bool(r) and r[-1].value is tm.sub(sch, NOW), "interrupt-saves", fi.qual, f"remaining duration saved is {r[-1].value if r else None!r}; scheduled time - now required", ctx.where(fi), pathstr(p))
                s = w(p, "_interrupted_status")
                ctx.check(bool(s) and (s[-1].value is const("scheduled") or implied(p.facts, cmp_eq(s[-1].value, const("scheduled"))) is True), "interrupt-saves", fi.qual, "the status to return to is not saved", ctx.where(fi), pathstr(p))
        fi, ps = run_api(ctx, "Component.resume", y)
        for p in ps:
            st = possible(p.facts)
            if p.raised:
                ok = "interrupted" not in st or implied(p.facts, cmp_lt(rem, const(0))) is True or implied(p.facts, cmp_eq(mk("attr", SELF, "_interrupted_status"), const("scheduled"))) is False
                ctx.check(ok, "resumable", fi.qual, "resuming an interrupted component fails", ctx.where(fi), pathstr(p))
                continue
            ctx.check(st == {"interrupted"}, "resumable", fi.qual, f"a component that may be {'|'.join(sorted(st))} can be resumed", ctx.where(fi), pathstr(p))
            al = implied(p.facts, truth(mk("sym", "arg:all")))
            one = implied(p.facts, cmp_eq(lvl, const(1)))
            if one is None:
                one = implied(p.facts, cmp_lt(lvl, const(2)))
            ctx.count("resume paths")
            done = bool(w(p, "_scheduled_time"))
            if one is True or al is True:
                ctx.check(done, "resume-continues", fi.qual, "the last interrupt is undone but the component does not continue", ctx.where(fi), pathstr(p))
                if done:
                    v = w(p, "_scheduled_time")[-1].value
                    ctx.check(v is tm.add(NOW, rem), "resume-continues", fi.qual, f"continues until {v!r}; now + remaining duration required", ctx.where(fi), pathstr(p))
            else:
                l = w(p, "_interrupt_level")
                ctx.check(one is False and al is False and not done and bool(l) and l[-1].value is tm.sub(lvl, const(1)), "resume-level", fi.qual, f"one of several interrupts undone: level {l[-1].value if l else None!r}, continues: {done}", ctx.where(fi), pathstr(p))
    ctx.floor("interrupt paths", 4)
    ctx.floor("resume paths", 6)
    # hold(interrupted)
    fi, ps = run_api(ctx, "Component.hold", False)
    for p in ps:
        if not p.raised and ends_interrupted(p):
            l = w(p, "_interrupt_level")
            a = mk("sym", "arg:interrupted")
            ctx.check(bool(l) and l[-1].value in (mk("pure", "int", a), a, const(1)), "hold-interrupted", fi.qual, f"level {l[-1].value if l else None!r}", ctx.where(fi), pathstr(p))
            s = w(p, "_interrupted_status")
            ctx.check(bool(s) and s[-1].value is const("scheduled"), "hold-interrupted", fi.qual, "the status to return to is not set", ctx.where(fi), pathstr(p))
            ctx.check(bool(w(p, "_remaining_duration")), "hold-interrupted", fi.qual, "the remaining duration is not set", ctx.where(fi), pathstr(p))
    # passivate keeps the remaining duration
    fi, ps = run_api(ctx, "Component.passivate", False)
    for p in ps:
        if p.raised:
            continue
        st = possible(p.facts)
        r = w(p, "_remaining_duration")
        v = r[-1].value if r else None
        if st == {"current"}:
            ctx.check(v is not None and tm.is_num_const(v) and tm.num_value(v) == 0, "passivate-remaining", fi.qual, f"remaining duration {v!r} after passivating the current component", ctx.where(fi), pathstr(p))
        elif st == {"interrupted"}:
            ctx.check(v is None, "passivate-remaining", fi.qual, f"remaining duration of an interrupted component becomes {v!r} when passivated", ctx.where(fi), pathstr(p))
        else:
            ctx.check(v is tm.sub(sch, NOW), "passivate-remaining", fi.qual, f"remaining duration {v!r} after passivating", ctx.where(fi), pathstr(p))
    # reading and setting it
    fi, ps = run_api(ctx, "Component.remaining_duration", False)
    val = mk("sym", "arg:value")
    for p in ps:
        st = possible(p.facts)
        if not st:
            continue
        given = implied(p.facts, cmp_eq(val, NONE)) is False
        r = w(p, "_remaining_duration")
        s = w(p, "_scheduled_time")
        if p.raised:
            ctx.check(given, "remaining-duration", fi.qual, "reading the remaining duration fails", ctx.where(fi), pathstr(p))
            continue
        out = p.outcome[1]
        if not given:
            ctx.check(not r and not s, "remaining-duration", fi.qual, "reading the remaining duration changes it", ctx.where(fi), pathstr(p))
            want = rem if st <= {"passive", "interrupted"} else tm.sub(sch, NOW) if st <= {"scheduled", "waiting", "requesting"} else const(0) if not st & {"passive", "interrupted", "scheduled", "waiting", "requesting"} else None
            ctx.check(want is not None and out is want, "remaining-duration", fi.qual, f"remaining duration of a {'|'.join(sorted(st))} component is {out!r}", ctx.where(fi), pathstr(p))
        elif st <= {"passive", "interrupted"}:
            ctx.check(bool(r) and r[-1].value is val and not s, "remaining-duration", fi.qual, f"setting stores {r[-1].value if r else None!r}", ctx.where(fi), pathstr(p))
        else:
            ctx.check(not (st & {"current", "standby", "data"}), "remaining-duration", fi.qual, f"can be set for a {'|'.join(sorted(st & {'current', 'standby', 'data'}))} component", ctx.where(fi), pathstr(p))
            rmv = any(e.kind == "remove" and e.base is SELF for e in p.events)
            ctx.check(rmv and bool(s) and s[-1].value is tm.add(NOW, val), "remaining-duration", fi.qual, f"setting reschedules for {s[-1].value if s else None!r}", ctx.where(fi), pathstr(p))
    fi = m.need("Component.interrupt_level")
    for p in ctx.paths(fi, key="get", entry=fi):
        if not p.raised:
            st = possible(p.facts)
            want = lvl if st == {"interrupted"} else const(0)
            ctx.check(p.outcome[1] is want and (st == {"interrupted"} or "interrupted" not in st), "interrupt-level", fi.qual, f"{p.outcome[1]!r} reported", ctx.where(fi), pathstr(p))
    fi = m.need("Component.interrupted_status")
    for p in ctx.paths(fi, key="get", entry=fi):
        st = possible(p.facts)
        if p.raised:
            ctx.check("interrupted" not in st, "interrupted-status", fi.qual, "not available for an interrupted component", ctx.where(fi), pathstr(p))
        else:
            ctx.check(p.outcome[1] is mk("attr", SELF, "_interrupted_status"), "interrupted-status", fi.qual, f"{p.outcome[1]!r} reported", ctx.where(fi), pathstr(p))


# ---------------------------------------------------------------- C32 run and standby
@prop("C32")
def c32(ctx):
    m = ctx.m
    MAIN = mk("attr", ENV, "_main")
    SB, PEND = mk("attr", ENV, "_standbylist"), mk("attr", ENV, "_pendingstandbylist")
    till, dur = mk("sym", "arg:till"), mk("sym", "arg:duration")
    for y in modes(ctx):
        fi, ps = run_api(ctx, "Environment.run", y)
        for p in ps:
            sch = [e for e in p.events if e.kind == "write" and e.name == "_scheduled_time" and e.base is MAIN]
            if not sch:
                continue
            ctx.count("run paths")
            ts = [e for e in p.events if is_status(e, MAIN)]
            ctx.check(bool(ts) and ts[0].value is const("scheduled"), "run-schedules-main", fi.qual, "the end of the run is not scheduled", ctx.where(fi), pathstr(p))
            run = [e for e in p.events if e.kind == "write" and e.name == "running"]
            ctx.check(bool(run) and run[-1].value is TRUE and run[-1].seq > sch[-1].seq, "run-starts", fi.qual, "the run is not started after its end is scheduled", ctx.where(fi), pathstr(p))
            oe = [e for e in p.events if e.kind == "write" and e.name == "end_on_empty_eventlist"]
            free = implied(p.facts, cmp_eq(till, NONE)) is True and implied(p.facts, cmp_eq(dur, NONE)) is True
            ctx.check(bool(oe) and oe[-1].value is (TRUE if free else FALSE), "run-until-empty", fi.qual, f"run {'without' if free else 'with'} an end ends {'not ' if free else ''}when there are no events left, clock kept", ctx.where(fi), pathstr(p))
    ctx.floor("run paths", 20)
    fi = m.need("Environment.step")
    endflag = truth(mk("attr", ENV, "end_on_empty_eventlist"))
    for y in modes(ctx):
        for p in ctx.paths(fi, key=f"r4{y}", yieldless=y, entry=fi):
            if p.raised:
                continue
            cur = [e for e in p.events if e.kind == "write" and e.name == "_current_component"]
            stop = [e for e in p.events if e.kind == "write" and e.name == "running"]
            clk = [e for e in p.events if e.kind == "write" and e.name == "_now"]
            if clk:
                c = cur[-1].value if cur else None
                ismain = c is MAIN or (c is not None and implied(p.facts, cmp_eq(c, MAIN)) is True)
                notmain = c is not None and c is not MAIN and implied(p.facts, cmp_eq(c, MAIN)) is False
                if ismain:
                    ctx.check(bool(stop) and stop[-1].value is FALSE, "main-ends-run", fi.qual, "the event of main does not end the run", ctx.where(fi), pathstr(p))
                    ran = [e for e in p.events if e.seq > cur[-1].seq and e.kind in ("switch",) or (e.kind == "ucall" and any(is_attr(x, "_process") for x in subterms(e.base)))]
                    ctx.check(not ran, "main-ends-run", fi.qual, "something is resumed after the run ended", ctx.where(fi), pathstr(p))
                    # also: nothing left
                    if c is MAIN:
                        fl = implied(p.facts, endflag)
                        v = clk[-1].value
                        ctx.check((fl is True and now_like(v)) or (fl is False and v is INF), "no-events-left", fi.qual, f"with no events left the clock becomes {v!r} (end on empty event list: {fl})", ctx.where(fi), pathstr(p))
                else:
                    ctx.check(notmain and not stop, "only-main-ends-run", fi.qual, "the run may end (or main be resumed) at another component's event", ctx.where(fi), pathstr(p))
            # standby components are moved, none is lost
            moved = [e for e in p.events if e.kind == "write" and e.name == "_pendingstandbylist" or (e.kind == "mut" and e.base is PEND and e.name in ("extend", "append", "clear"))]
            emptied = [e for e in p.events if (e.kind == "write" and e.name == "_standbylist") or (e.kind == "mut" and e.base is SB)]
            some = None
            for f, v in p.facts.items():
                for t in (truth(SB), neg(cmp_lt(mk("pure", "len", SB), const(1)))):
                    if f is t:
                        some = v
                    elif t.op == "not" and t.a[0] is f:
                        some = not v
            pempty = implied(p.facts, cmp_lt(mk("pure", "len", PEND), const(1))) is True or implied(p.facts, truth(PEND)) is False
            if clk and some is not False:
                srcs = set()
                for e in moved:
                    for t in ([e.value] if e.kind == "write" else list(e.args)):
                        if isinstance(t, tm.T):
                            srcs |= set(subterms(t))
                ctx.count("standby rounds")
                ctx.check(SB in srcs, "standby-gets-turn", fi.qual, "standby components are not given a turn after the event", ctx.where(fi), pathstr(p))
                wr = [e for e in moved if e.kind == "write"]
                ctx.check(not wr or PEND in set(subterms(wr[-1].value)) or pempty, "standby-not-lost", fi.qual, "standby components that did not get their turn yet are dropped", ctx.where(fi, wr[-1].line if wr else None), pathstr(p))
                ctx.check(bool(emptied) and emptied[-1].seq > (moved[-1].seq if moved and not any(e.value is SB for e in moved) else -1), "standby-once", fi.qual, "the standby list is not emptied (or emptied before it is used): a component would get two turns", ctx.where(fi), pathstr(p))
            # turns
            pops = [e for e in p.events if e.kind == "mut" and e.base is PEND and e.name in ("pop", "popleft")]
            if pops:
                ctx.check((pops[0].name == "popleft") or (pops[0].args and pops[0].args[0] is const(0)), "standby-order", fi.qual, "standby components do not get their turns in order", ctx.where(fi, pops[0].line), pathstr(p))
                ctx.check(implied(p.facts, truth(mk("attr", CURRENT, "_skip_standby"))) is False, "skip-standby", fi.qual, "standby components are resumed after a component with skip_standby", ctx.where(fi), pathstr(p))
                c = mk("elem", PEND, 0)
                if cur and cur[-1].value is c:
                    ctx.check(implied(p.facts, cmp_eq(status_of(c), const("standby"))) is True, "standby-still", fi.qual, "a component that is no longer standby gets a standby turn", ctx.where(fi), pathstr(p))
                    ctx.check(not clk and not [e for e in p.events if e.kind == "pop"], "standby-no-time", fi.qual, "a standby turn takes an event or moves the clock", ctx.where(fi), pathstr(p))
                    ctx.count("standby turns")
            elif implied(p.facts, truth(mk("attr", CURRENT, "_skip_standby"))) is False:
                ctx.check(pempty, "standby-before-event", fi.qual, "the next event is taken while standby components wait for their turn", ctx.where(fi), pathstr(p))
    ctx.floor("standby turns", 2)
    ctx.floor("standby rounds", 4)
