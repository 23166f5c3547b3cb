"""States: value, monitor and waiters in step; wait conditions."""
import ast
from lib.core import *
from lib.core import _bumpq
from . import prop
from .resource import A, wr, strip_coll, elems, nreq, emptied, queue_moves

WAITS = mk("attr", SELF, "_waits")


def h_trystate(eng, st, recv, b, node, fi):
    Q = A(SELF, "_waiters")
    st = eng.event(st, Ev("try", recv, fi.qual), node)
    no = st.clone()
    no.heap[(Q, ("in", recv))] = TRUE
    yes = st.clone()
    yes = eng.event(yes, Ev("honored", recv, fi.qual), node)
    yes.heap[(Q, "_length")] = tm.sub(eng.rd(Q, "_length", yes), const(1))
    yes.heap[(Q, ("in", recv))] = FALSE
    _bumpq(yes, Q)
    return [(yes, TRUE), (no, FALSE)]


@prop("C14")
def c14(ctx):
    m = ctx.m
    sw = ctx.roles.state_trywait
    if sw is None:
        raise AnalysisBroken("no function that tries the waiters of a state")
    val = mk("sym", "arg:value")
    old = A(SELF, "_value")

    def tallies(p):
        return [e for e in p.events if e.kind == "tally" and is_attr(e.base, "value", SELF)]

    def serves(p):
        return [e for e in p.events if e.kind == "call" and e.name == sw.qual and e.base is SELF]

    def unlimited(e):
        v = e.args.get("max")
        return v is None or v is INF

    for api in ("set", "reset"):
        fi = m.need("State." + api)
        for p in ctx.paths(fi, key="st", yieldless=False, entry=fi):
            if p.raised:
                ctx.fail("set-value", fi.qual, "setting a state fails", ctx.where(fi), pathstr(p))
                continue
            same = implied(p.facts, cmp_eq(old, val))
            w = wr(p, "_value", SELF)
            t = tallies(p)
            s = serves(p)
            ctx.count("state changes")
            if same is True:
                ctx.check(not w or w[-1].value is val or w[-1].value is old, "set-value", fi.qual, "setting the same value changes the state", ctx.where(fi), pathstr(p))
                continue
            ctx.check(bool(w) and w[-1].value is val, "set-value", fi.qual, f"the state gets value {w[-1].value if w else None!r}", ctx.where(fi), pathstr(p))
            ctx.check(bool(t) and t[-1].value is val, "value-monitored", fi.qual, f"the value monitor gets {t[-1].value if t else None!r}", ctx.where(fi), pathstr(p))
            ok = bool(s) and bool(w) and s[-1].seq > w[-1].seq and unlimited(s[-1]) and (not t or s[-1].seq > t[-1].seq)
            ctx.check(ok, "waiters-tried", fi.qual, "the waiters are not (all) tried after the value has changed", ctx.where(fi), pathstr(p))
    fi = m.need("State.trigger")
    after, mx = mk("sym", "arg:value_after"), mk("sym", "arg:max")
    for p in ctx.paths(fi, key="st", yieldless=False, entry=fi):
        if p.raised:
            ctx.fail("trigger", fi.qual, "triggering a state fails", ctx.where(fi), pathstr(p))
            continue
        none = implied(p.facts, cmp_eq(after, NONE))
        if none is None and implied(p.facts, truth(after)) is True:
            none = False
        w = wr(p, "_value", SELF)
        t = tallies(p)
        s = serves(p)
        want = old if none is True else after if none is False else None
        ctx.count("trigger paths")
        ctx.check(want is not None and bool(w) and w[-1].value is want, "trigger-value-after", fi.qual, f"the value after the trigger is {w[-1].value if w else None!r}, {want!r} required", ctx.where(fi), pathstr(p))
        ctx.check(bool(t) and bool(w) and t[-1].value is w[-1].value and (len(s) == 0 or True), "value-monitored", fi.qual, f"the value monitor gets {t[-1].value if t else None!r}", ctx.where(fi), pathstr(p))
        # while the trigger value holds, at most max waiters are honored
        first = [e for e in s if any(x.seq < e.seq and x.value is val for x in w) and not any(x.seq < e.seq and x.value is not val for x in w)]
        ctx.check(len(first) == 1 and first[0].args.get("max") is mx, "trigger-max", fi.qual, "the waiters are not tried with the trigger value and the given maximum", ctx.where(fi), pathstr(p))
        last = [e for e in s if w and e.seq > w[-1].seq and w[-1].value is not val]
        ctx.check(bool(last) and unlimited(last[-1]) and (not t or last[-1].seq > t[-1].seq), "waiters-tried", fi.qual, "the waiters are not (all) tried with the value after the trigger", ctx.where(fi), pathstr(p))
    # the walk
    Q = A(SELF, "_waiters")
    L = A(Q, "_length")
    mx = mk("sym", "arg:" + sw.posargs[1])
    ct = ctx.roles.comp_trywait
    for p in ctx.paths(sw, key="walk", yieldless=False, entry=sw, loop_k=2 if ctx.tier == "quick" else 3, extra_handlers={ct.qual: h_trystate}):
        if p.raised:
            continue
        tries = [e for e in p.events if e.kind == "try"]
        hon = [e for e in p.events if e.kind == "honored"]
        ctx.count("waiter walks")
        bases = [e.base for e in tries]
        ctx.check(len(set(bases)) == len(bases), "each-waiter-once", sw.qual, "a waiter is tried twice", ctx.where(sw), pathstr(p))
        end = implied(p.facts, cmp_lt(L, const(len(tries) + 1))) is True
        full = bool(hon) and hon[-1].seq > tries[-1].seq and (implied(p.facts, cmp_eq(tm.sub(mx, const(len(hon))), const(0))) is True or implied(p.facts, cmp_lt(const(len(hon)), mx)) is False)
        ctx.check(end or full, "walk-complete", sw.qual, f"the walk over the waiters ends after {len(tries)} although there may be more", ctx.where(sw), pathstr(p))
        for j, e in enumerate(hon):
            more = [x for x in tries if x.seq > e.seq]
            if more:
                d = tm.sub(mx, const(j + 1))
                ctx.check(implied(p.facts, cmp_eq(d, const(0))) is False or implied(p.facts, cmp_lt(const(j + 1), mx)) is True, "trigger-max", sw.qual, f"waiters are tried after the maximum of {j + 1} is reached", ctx.where(sw), pathstr(p))
    ctx.floor("waiter walks", 4)
    ctx.floor("state changes", 2)
    # creation and reading
    fi = m.need("State.__init__")
    for p in ctx.paths(fi, key="init", yieldless=False, entry=fi):
        if p.raised:
            continue
        w = wr(p, "_value", SELF)
        ctx.check(bool(w) and w[-1].value is val, "initial-value", fi.qual, f"initial value {w[-1].value if w else None!r}", ctx.where(fi), pathstr(p))
        mw = wr(p, "value", SELF)
        new = [e for e in p.events if e.kind == "new" and mw and e.base is mw[-1].value]
        kw = new[-1].args if new else {}
        it = kw.get("initial_tally")
        if it is None and new:
            it = _find(new[-1], "initial_tally")
        ctx.check(it is None and not new or it is val, "initial-value", fi.qual, f"the value monitor starts with {it!r}", ctx.where(fi), pathstr(p))
        ctx.count("state creations")
    ctx.floor("state creations", 1)
    for g in ("State.__call__", "State.get"):
        fi = m.get(g)
        if fi:
            for p in ctx.paths(fi, key="get", entry=fi, yieldless=False):
                ctx.check(not p.raised and p.outcome[1] is old, "value-read", fi.qual, f"returns {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
    # nobody else changes a value behind the waiters' backs
    for f in m.all_funcs():
        if f.cls == "State" and f.qual not in ctx.analysed and f.name != "__init__":
            ctx.check("_value" not in m.direct_writes(f.node), "who-may-set", f.qual, "changes the value without trying the waiters", ctx.where(f))


def _find(ev, name):
    a = ev.args or {}
    if name in a:
        return a[name]
    for v in a.values():
        if isinstance(v, dict) and name in v:
            return v[name]
        if isinstance(v, tm.T) and v.op == "kwargs":
            for k, x in v.a[0]:
                if k == name:
                    return x
    return None


# ---------------------------------------------------------------- C15 wait conditions
def h_isfunction(eng, st, recv, pos, kw, node):
    return [(st, mk("pure", "isfunction", pos[0]))] if len(pos) == 1 else None


def h_eval(eng, st, recv, pos, kw, node):
    """eval(value.replace('$', 'expr')): the condition with $ standing for the value of expr in this scope"""
    if not pos:
        return None
    t = pos[0]
    if t.op == "app" and t.a[0].op == "attr" and t.a[0].a[1] == "replace" and len(t.a) == 3:
        v = t.a[0].a[0]
        a, b = t.a[1], t.a[2]
        if a is const("$") and b.op == "const" and isinstance(b.a[1], str):
            txt = b.a[1].strip()
            try:
                node2 = ast.parse(txt, mode="eval").body
            except SyntaxError:
                return None
            ast.copy_location(node2, node)
            for x in ast.walk(node2):
                ast.copy_location(x, node)
            out = []
            for st2, x in eng.ev(node2, st):
                out.append((st2, mk("app", mk("glob", "eval"), v, x)))
            return out
    return [(st, mk("app", mk("glob", "eval"), t))]


def wait_codes(ctx):
    """how wait() marks plain values, $ expressions and functions; also checks what it records"""
    m = ctx.m
    fi = m.need("Component.wait")
    args = mk("sym", "arg:args")
    codes = {}
    eh = {ctx.roles.reschedule.qual: h_call, "inspect.isfunction": h_isfunction, "isfunction": h_isfunction}
    for p in ctx.paths(fi, key="rec", args={"fail_at": NONE, "fail_delay": NONE, "mode": NONE}, yieldless=False, entry=fi, extra_handlers=eh, loop_k=2, max_paths=60000, assume={"_trace": False}):
        if p.raised or implied(p.facts, truth(args)) is not True:
            continue
        n = nreq(p, args) or 1
        earlier = []
        for i in range(n):
            a = mk("elem", args, i)
            plain = implied(p.facts, mk("cmp", "isinst", a, ("State",)))
            ln = mk("pure", "len", a)
            l2, l3 = implied(p.facts, cmp_lt(ln, const(2))), implied(p.facts, cmp_lt(ln, const(3)))
            if plain is None or (plain is False and (l2 is None or (l2 is False and l3 is None))):
                break
            s = a if plain else mk("idx", a, const(0))
            v = TRUE if plain or l2 else mk("idx", a, const(1))
            prio = mk("sym", "arg:request_priority") if plain or l2 or l3 else mk("idx", a, const(2))
            ap = [e for e in p.events if e.kind == "mut" and e.name == "append" and (is_attr(e.base, "_waits", SELF) or e.base.op == "new") and e.args and e.args[0].op in ("tuple", "list") and e.args[0].a and e.args[0].a[0] is s]
            ctx.count("recorded waits")
            if not ctx.check(len(ap) == 1 and len(ap[0].args[0].a) == 3 and ap[0].args[0].a[1] is v, "wait-recorded", fi.qual, f"the condition recorded is {[e.args[0] for e in ap]!r}; {s!r} with {v!r} required", ctx.where(fi), pathstr(p)):
                break
            vt = ap[0].args[0].a[2]
            fn = implied(p.facts, truth(mk("pure", "isfunction", v)))
            dollar = None
            for f, x in p.facts.items():
                if f.op == "cmp" and f.a[0] == "in" and f.a[1] is const("$") and (f.a[2] is v or v in list(subterms(f.a[2])) or (v is TRUE and (f.a[2] is STR or tm.is_const(f.a[2])))):
                    dollar = x
            kind = "function" if fn is True else "expr" if dollar is True else "value" if dollar is False else None
            if v is TRUE and (fn is True or dollar is True):
                break  # True is neither a function nor contains a $
            if kind:
                codes.setdefault(kind, set()).add(vt)
            dup = any(f.op == "cmp" and f.a[0] == "eq" and s in f.a[1:] and any((x.op == "idx" and x.a[0].op == "elem" and x.a[0].a[0] is not args) or x in earlier for x in f.a[1:] if isinstance(x, tm.T)) and val for f, val in p.facts.items()) or implied(p.facts, mk("cmp", "in", SELF, A(s, "_waiters"))) is True
            ent = queue_moves(p, "enter", SELF, A(s, "_waiters"))
            ctx.check(len(ent) == (0 if dup else 1), "waiter-listed", fi.qual, "a waiting component does not enter the waiters queue exactly once", ctx.where(fi), pathstr(p, 25))
            for e in ent:
                none = implied(p.facts, cmp_eq(prio, NONE))
                ok = e.args is prio or (none is True and e.args is NONE)
                ctx.check(ok, "waiter-priority", fi.qual, f"enters the waiters queue with priority {e.args!r}, {prio!r} required", ctx.where(fi, e.line), pathstr(p))
            tr = [e for e in p.events if e.kind == "try" and e.base is SELF]
            ctx.check(len(tr) == 1 and tr[0].seq > ap[-1].seq and (not ent or tr[0].seq > ent[-1].seq), "tried-at-once", fi.qual, "a new wait is not tried at once after it is recorded", ctx.where(fi), pathstr(p))
            al = wr(p, "_wait_all", SELF)
            ctx.check(bool(al) and al[-1].value is mk("sym", "arg:all") and (not tr or al[-1].seq < tr[0].seq), "all-recorded", fi.qual, "all is not recorded before the wait is tried", ctx.where(fi), pathstr(p))
            cd = wr(p, "_cond", SELF)
            ctx.check(bool(cd) and cd[-1].value is NONE, "no-old-condition", fi.qual, "the condition of an earlier wait_for is still used", ctx.where(fi), pathstr(p))
            earlier.append(s)
    for p in ctx.paths(fi, key="try", yieldless=False, entry=fi, extra_handlers=eh):
        if p.raised or implied(p.facts, truth(args)) is not True:
            continue
        tr = [e for e in p.events if e.kind == "try" and e.base is SELF]
        ctx.check(len(tr) == 1, "tried-at-once", fi.qual, "a new wait is not tried at once", ctx.where(fi), pathstr(p))
    ctx.floor("recorded waits", 40)
    for k in ("value", "expr", "function"):
        ctx.check(len(codes.get(k, ())) == 1, "wait-recorded", fi.qual, f"{k} conditions are recorded with marks {codes.get(k)!r}", ctx.where(fi))
    allc = [x for s in codes.values() for x in s]
    ctx.check(len(set(allc)) == len(allc), "wait-recorded", fi.qual, "different kinds of conditions get the same mark", ctx.where(fi))
    return {k: next(iter(v)) for k, v in codes.items() if v}


def wait_forms(ctx):
    """each documented form of a specifier: state, (state,), (state, value), (state, value, priority); wait_for with its states"""
    fi = ctx.m.need("Component.wait")
    S, V, PR, S2 = (mk("sym", "arg:" + x) for x in ("s1", "v1", "p1", "s2"))
    dp = mk("sym", "arg:request_priority")
    pt = {"s1": "State", "s2": "State"}
    facts = [(cmp_eq(S, S2), False)]
    waits = mk("new", "list", ("no waits",))

    def pre(eng, st):
        st.heap[(SELF, "_waits")] = waits  # nothing pending (C07)
        st.heap[(waits, "#items")] = mk("list")
        sts = [st]
        for lit, v in facts:
            sts = [y for x in sts for y in assume(x, lit, v)]
        return sts

    eh = {ctx.roles.reschedule.qual: h_call, "inspect.isfunction": h_isfunction, "isfunction": h_isfunction}
    base = {"fail_at": NONE, "fail_delay": NONE, "mode": NONE}
    forms = [((S,), [(S, TRUE, dp)]), ((mk("tuple", S),), [(S, TRUE, dp)]), ((mk("tuple", S, V),), [(S, V, dp)]), ((mk("tuple", S, V, PR),), [(S, V, PR)]), ((mk("tuple", S2, V, PR), S), [(S2, V, PR), (S, TRUE, dp)])]
    for k, (args, want) in enumerate(forms):
        n = 0
        for p in ctx.paths(fi, key=f"spec{k}", args=dict(base, args=mk("tuple", *args)), yieldless=False, entry=fi, extra_handlers=eh, param_types=pt, assume={"_trace": False}, pre=pre):
            if p.raised:
                continue
            n += 1
            ctx.count("wait forms")
            for s, v, pr in want:
                ap = [e.args[0] for e in p.events if e.kind == "mut" and e.name == "append" and (is_attr(e.base, "_waits", SELF) or e.base.op == "new") and e.args and e.args[0].op in ("tuple", "list") and e.args[0].a and e.args[0].a[0] is s]
                ctx.check(len(ap) == 1 and len(ap[0].a) > 1 and ap[0].a[1] is v, "specifier-read", fi.qual, f"for {args!r} the condition recorded is {ap!r}; {s!r} with {v!r} required", ctx.where(fi), pathstr(p))
                ent = queue_moves(p, "enter", SELF, A(s, "_waiters"))
                none = implied(p.facts, cmp_eq(pr, NONE))
                ctx.check(len(ent) == 1 and (ent[0].args is pr or (none is True and ent[0].args is NONE)), "specifier-read", fi.qual, f"for {args!r} the waiters queue of {s!r} is entered with priority {[e.args for e in ent]!r}, {pr!r} required", ctx.where(fi), pathstr(p))
        ctx.check(n > 0, "specifier-read", fi.qual, f"the specifier {args!r} is not accepted", ctx.where(fi))
    fi = ctx.m.need("Component.wait_for")
    for k, ss in enumerate([(S,), (S, S2)]):
        n = 0
        for p in ctx.paths(fi, key=f"spec{k}", args=dict(base, states=mk("tuple", *ss)), yieldless=False, entry=fi, extra_handlers=eh, param_types=pt, assume={"_trace": False}, pre=pre):
            if p.raised:
                continue
            n += 1
            ctx.count("wait forms")
            for s in ss:
                ap = [e for e in p.events if e.kind == "mut" and e.name in ("append", "extend") and any(s in subterms(x) for x in e.args)]
                w = [e for e in p.events if e.kind == "write" and e.name == "_waits" and e.base is SELF]
                ctx.check(bool(ap) or bool(w), "specifier-read", fi.qual, f"wait_for does not record {s!r}", ctx.where(fi), pathstr(p))
                ent = queue_moves(p, "enter", SELF, A(s, "_waiters"))
                none = implied(p.facts, cmp_eq(dp, NONE))
                ctx.check(len(ent) == 1 and (ent[0].args is dp or (none is True and ent[0].args is NONE)), "specifier-read", fi.qual, f"wait_for enters the waiters queue of {s!r} with priority {[e.args for e in ent]!r}", ctx.where(fi), pathstr(p))
        ctx.check(n > 0, "specifier-read", fi.qual, f"wait_for does not accept {ss!r}", ctx.where(fi))
    ctx.floor("wait forms", 20)


@prop("C15")
def c15(ctx):
    m = ctx.m
    codes = wait_codes(ctx)
    wait_forms(ctx)
    fi = ctx.roles.comp_trywait
    if fi is None:
        raise AnalysisBroken("no function that tries to honor a wait")
    cond = A(SELF, "_cond")
    eh = {ctx.roles.reschedule.qual: h_call, "eval": h_eval}
    for p in ctx.paths(fi, key="cond", yieldless=False, entry=fi, loop_k=2 if ctx.tier == "quick" else 3, extra_handlers=eh, max_paths=30000):
        if p.raised:
            continue
        leaves = [e for e in p.events if e.kind == "leave" and e.base is SELF]
        resch = [e for e in p.events if e.kind == "call" and e.name == ctx.roles.reschedule.qual]
        changed = [e for e in p.events if e.kind in ("write", "setitem", "delitem", "leave", "enter", "remove", "tally", "push") and e.base.op != "new"]
        v = p.outcome[1]
        res = TRUE if v is TRUE else FALSE if v is FALSE or v is NONE else None
        if res is None:
            d = implied(p.facts, truth(v))
            res = TRUE if d is True else FALSE if d is False else None
        ctx.check(res is not None and (res is TRUE) == bool(changed), "reports-honored", fi.qual, f"returns {v!r} while the wait is {'' if changed else 'not '}honored", ctx.where(fi), pathstr(p))
        inter = implied(p.facts, cmp_eq(status_of(SELF), const("interrupted")))
        if res is not TRUE:
            ctx.check(not changed, "refused-changes-nothing", fi.qual, f"a wait that is not honored changes the model: {changed[0] if changed else ''}", ctx.where(fi), pathstr(p))
        else:
            ctx.check(inter is False, "not-while-interrupted", fi.qual, "the wait of an interrupted component is honored", ctx.where(fi), pathstr(p))
            n = nreq(p, WAITS)
            es = elems(p, WAITS)
            rm = [e for e in p.events if e.kind == "remove" and e.base is SELF]
            ctx.check(emptied(p, "_waits") and bool(rm) and len(resch) == 1 and resch[0].seq > rm[0].seq and resch[0].args.get("scheduled_time") is NOW, "honored-continues-now", fi.qual, "an honored component does not continue at the current time (or stays waiting)", ctx.where(fi), pathstr(p))
            for e in es[: n if n is not None else len(es)]:
                s = mk("idx", e, const(0))
                isin = implied(p.facts, mk("cmp", "in", SELF, A(s, "_waiters")))
                lv = [x for x in leaves if x.value is A(s, "_waiters")]
                ctx.check(bool(lv) or isin is False, "honored-leaves-waiters", fi.qual, "an honored component stays in the waiters queue of a state", ctx.where(fi), pathstr(p))
                ctx.check(len(lv) <= 1, "honored-leaves-waiters", fi.qual, "an honored component leaves a waiters queue twice", ctx.where(fi), pathstr(p))
        if inter is True:
            continue
        cn = implied(p.facts, truth(cond))
        if cn is True:
            r = implied(p.facts, truth(mk("app", cond)))
            ctx.count("wait_for conditions")
            ctx.check(r is not None and r == (res is TRUE), "condition-decides", fi.qual, f"wait_for is {'honored' if res is TRUE else 'not honored'} when its condition is {r}", ctx.where(fi), pathstr(p))
            continue
        al = implied(p.facts, truth(A(SELF, "_wait_all")))
        if al is None:
            ctx.fail("all-or-any", fi.qual, "the outcome does not depend on all", ctx.where(fi), pathstr(p))
            continue
        n = nreq(p, WAITS)
        if n == 0 or implied(p.facts, truth(WAITS)) is False:
            continue
        sat = []
        infeasible = False
        for e in elems(p, WAITS):
            s, val, vt = mk("idx", e, const(0)), mk("idx", e, const(1)), mk("idx", e, const(2))
            sv = A(s, "_value")
            kind = None
            excl = 0
            for k, c in codes.items():
                d = implied(p.facts, cmp_eq(vt, c))
                if d is True:
                    kind = k
                elif d is False:
                    excl += 1
            lits = {"value": cmp_eq(val, sv), "expr": truth(mk("app", mk("glob", "eval"), val, sv)), "function": truth(mk("app", val, sv, SELF, s))}
            dec = {k: implied(p.facts, l) for k, l in lits.items()}
            if kind is None and excl >= len(codes):
                infeasible = True
                break
            if kind is None and excl == len(codes) - 1:
                kind = next(k for k, c in codes.items() if implied(p.facts, cmp_eq(vt, c)) is not False)
            if kind is None:
                d = None
                if all(x is None for x in dec.values()):
                    sat.append((None, "not tested"))
                    continue
                ctx.fail("condition-kind", fi.qual, "a condition is tested without regard to its kind", ctx.where(fi), pathstr(p))
                infeasible = True
                break
            others = [k for k in dec if k != kind and dec[k] is not None]
            ctx.check(not others, "condition-kind", fi.qual, f"a condition of kind {kind} is tested as {others}", ctx.where(fi), pathstr(p))
            sat.append((dec[kind], kind))
        if infeasible:
            continue
        if n is not None:
            sat = sat[:n]
        ctx.count("conditions decided")
        if al:
            if res is TRUE:
                ok = n is not None and len(sat) >= n and all(x is True for x, _ in sat)
                ctx.check(ok, "all-holds", fi.qual, f"a wait for all is honored although a condition may not hold: {sat}", ctx.where(fi), pathstr(p, 14))
            else:
                ctx.check(any(x is False for x, _ in sat), "all-holds", fi.qual, f"a wait for all is not honored although every condition may hold: {sat}", ctx.where(fi), pathstr(p, 14))
        else:
            if res is TRUE:
                ctx.check(any(x is True for x, _ in sat), "any-holds", fi.qual, f"a wait for any is honored although none of the conditions may hold: {sat}", ctx.where(fi), pathstr(p, 14))
            else:
                ok = n is not None and len(sat) >= n and all(x is False for x, _ in sat)
                ctx.check(ok, "any-holds", fi.qual, f"a wait for any is not honored although one of the conditions may hold: {sat}", ctx.where(fi), pathstr(p, 14))
    ctx.floor("conditions decided", 30)
    ctx.floor("wait_for conditions", 2)
    # wait_for
    fi = m.need("Component.wait_for")
    st = mk("sym", "arg:states")
    for p in ctx.paths(fi, key="rec", args={"fail_at": NONE, "fail_delay": NONE, "mode": NONE}, yieldless=False, entry=fi, extra_handlers=eh, loop_k=2):
        if p.raised or implied(p.facts, truth(st)) is not True:
            continue
        c = wr(p, "_cond", SELF)
        tr = [e for e in p.events if e.kind == "try" and e.base is SELF]
        ctx.check(bool(c) and c[-1].value is mk("sym", "arg:cond") and bool(tr) and tr[0].seq > c[-1].seq, "condition-recorded", fi.qual, "the condition is not recorded before it is tried", ctx.where(fi), pathstr(p))
        rp = mk("sym", "arg:request_priority")
        for s in elems(p, st):
            ent = queue_moves(p, "enter", SELF, A(s, "_waiters"))
            isin = implied(p.facts, mk("cmp", "in", SELF, A(s, "_waiters")))
            ctx.count("states waited for")
            ctx.check(len(ent) == 1 or isin is True, "waiter-listed", fi.qual, "a component that waits for a condition does not enter the waiters queue of each state", ctx.where(fi), pathstr(p))
            for e in ent:
                ctx.check(e.args is rp or (implied(p.facts, cmp_eq(rp, NONE)) is True and e.args is NONE), "waiter-priority", fi.qual, f"enters the waiters queue with priority {e.args!r}", ctx.where(fi, e.line), pathstr(p))
    ctx.floor("states waited for", 2)
