"""Resources: claims accounting, capacity guard, monitors, wake-ups, preemption, release at the end."""
import ast
from fractions import Fraction
from lib.core import *
from lib.core import _bumpq
from lib.engine import ENV
from . import prop
from .lifecycle import ended_is_terminated

REQS = mk("attr", SELF, "_requests")
CLAIMS = mk("attr", SELF, "_claims")
TOL = Fraction(1, 10**6)


def A(r, name):
    return mk("attr", r, name)


def req(r, d=REQS):
    return mk("idx", d, r)


def claim(r, c=SELF):
    return mk("idx", A(c, "_claims"), r)


def wr(p, name, base=None):
    return [e for e in p.events if e.kind == "write" and e.name == name and (base is None or e.base is base)]


def final(p, r, name):
    w = wr(p, name, r)
    return w[-1].value if w else A(r, name)


def cset(p, c, r):
    """last assignment to / deletion of the claim of c on r: ('set', term) | ('del', None) | None"""
    out = None
    for e in p.events:
        if e.kind in ("setitem", "delitem") and is_attr(e.base, "_claims", c) and e.args[0] is r:
            out = ("set", e.value) if e.kind == "setitem" else ("del", None)
        elif e.kind == "mut" and e.name == "pop" and is_attr(e.base, "_claims", c) and e.args and e.args[0] is r:
            out = ("del", None)
    return out


def nreq(p, d=REQS):
    """number of requested resources on the path"""
    if implied(p.facts, truth(d)) is False:
        return 0
    n = None
    for f, v in p.facts.items():
        if f.op == "cmp" and f.a[0] == "more" and strip_coll(f.a[1]) is d and not v:
            n = f.a[2] if n is None else min(n, f.a[2])
    return n


def strip_coll(c):
    while c.op == "pure" and c.a[0] in ("list", "keys", "items", "tuple") and len(c.a) == 2:
        c = c.a[1]
    return c


def elems(p, d=REQS):
    """the elements of the collection d that occur on the path"""
    seen = {}
    for e in p.events:
        for t in (e.base, e.value):
            if isinstance(t, tm.T):
                for s in subterms(t):
                    if s.op == "elem" and strip_coll(s.a[0]) is d:
                        seen[s.a[1]] = s
    for f in p.facts:
        for s in subterms(f):
            if s.op == "elem" and strip_coll(s.a[0]) is d:
                seen[s.a[1]] = s
    return [seen[k] for k in sorted(seen)]


def emptied(p, name, c=SELF):
    ok = False
    for e in p.events:
        if e.kind == "write" and e.name == name and e.base is c:
            ok = e.value.op in ("new", "list", "tuple", "dict")
        elif e.kind == "mut" and e.name == "clear" and is_attr(e.base, name, c):
            ok = True
        elif e.kind == "setitem" and is_attr(e.base, name, c):
            ok = False
    return ok


def try_paths(ctx, mode="acc", oneof=None, y=False):
    ct = ctx.roles.comp_tryrequest
    if ct is None:
        raise AnalysisBroken("no function that tries to honor a component's request")
    if mode == "acc":
        return ct, ctx.paths(
            ct, key=f"acc{oneof}", yieldless=False, entry=ct, loop_k=2,
            assume={"_preemptive": False, "_honor_only_first": False, "_honor_only_highest_priority": False, "oneof_request": oneof},
            extra_handlers={ctx.roles.reschedule.qual: h_call, "Monitor.tally": h_tally_status}, mute={"_minq"},
        )
    if mode == "guard":
        return ct, ctx.paths(
            ct, key=f"guard{oneof}", yieldless=False, entry=ct, loop_k=2, max_paths=20000,
            assume={"_preemptive": False, "_anonymous": False, "oneof_request": oneof},
            extra_handlers={ctx.roles.reschedule.qual: h_call, "Monitor.tally": h_tally_status, "Component.enter_sorted": h_skip, "Component.enter": h_skip}, mute={"_minq"},
        )
    return ct, ctx.paths(ct, key=f"full{y}", yieldless=y, entry=ct, loop_k=1, extra_handlers={ctx.roles.reschedule.qual: h_call})


def feasible_try(p):
    """a component is in the requesters queue of whatever it requests, and in the claimers queue of whatever it claims"""
    for f, v in p.facts.items():
        if f.op == "cmp" and f.a[0] == "in" and f.a[1] is SELF and is_attr(f.a[2], "_requesters") and v is False:
            return False
    for f, v in p.facts.items():
        if f.op == "cmp" and f.a[0] == "in" and f.a[1] is SELF and is_attr(f.a[2], "_claimers"):
            r = f.a[2].a[0]
            c = p.facts.get(mk("cmp", "in", r, CLAIMS))
            if c is not None and c != v:
                return False
    return True


def queue_moves(p, kind, comp, q):
    return [e for e in p.events if e.kind == kind and e.base is comp and e.value is q]


# ---------------------------------------------------------------- C08 claims accounting
@prop("C08")
def c08(ctx):
    m = ctx.m
    for oneof in (False, True):
        fi, ps = try_paths(ctx, "acc", oneof)
        for p in ps:
            if p.raised or not feasible_try(p):
                continue
            if p.outcome[1] is FALSE:
                bad = [e for e in p.events if e.kind in ("write", "setitem", "delitem", "enter", "leave", "remove", "tally") and not (e.kind in ("write", "setitem") and e.base.op == "new")]
                ctx.check(not bad, "refused-changes-nothing", fi.qual, f"a request that cannot be honored changes the model: {bad[0] if bad else ''}", ctx.where(fi, bad[0].line if bad else None), pathstr(p))
                continue
            if p.outcome[1] is not TRUE:
                ctx.fail("honored-or-not", fi.qual, f"returns {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                continue
            n = nreq(p)
            rs = elems(p)
            if n is None or len(rs) < n:
                n = len(rs)
            rs = rs[:n]
            if not rs:
                continue
            ctx.count("honoring paths")
            got = []
            for r in rs:
                d = tm.sub(final(p, r, "_claimed_quantity"), A(r, "_claimed_quantity"))
                c = cset(p, SELF, r)
                anon = implied(p.facts, truth(A(r, "_anonymous")))
                changed = bool(wr(p, "_claimed_quantity", r)) or c is not None
                if changed:
                    got.append(r)
                    ctx.check(d is req(r), "claims-what-was-requested", fi.qual, f"the claimed quantity of the resource changes by {d!r}, requested is {req(r)!r}", ctx.where(fi), pathstr(p))
                    ent = queue_moves(p, "enter", SELF, A(r, "_claimers"))
                    if anon is True:
                        ctx.check(c is None and not ent, "anonymous-has-no-claimers", fi.qual, "a claim on an anonymous resource is attributed to a component", ctx.where(fi), pathstr(p))
                    elif anon is False:
                        had = implied(p.facts, mk("cmp", "in", r, CLAIMS))
                        want = req(r) if had is False else tm.add(claim(r), req(r)) if had is True else None
                        # defaultdict/get style
                        alt = mk("pure", "get", CLAIMS, r, const(0))
                        ok = c is not None and c[0] == "set" and (c[1] is want or (had is None and c[1] is tm.add(alt, req(r))))
                        ctx.check(ok, "claim-equals-claimed", fi.qual, f"the component's claim becomes {c!r}, {want!r} required", ctx.where(fi), pathstr(p))
                        isin = implied(p.facts, mk("cmp", "in", SELF, A(r, "_claimers")))
                        if isin is None and had is True:
                            isin = True
                        if isin is None and had is False:
                            isin = False
                        ctx.check(bool(ent) == (isin is False), "claimer-listed", fi.qual, "a component with a new claim does not enter the claimers queue exactly once" if not ent else "a component that already claims enters the claimers queue again", ctx.where(fi), pathstr(p))
                        if ent:
                            pr = ent[-1].args
                            ctx.check(pr is mk("attr", mk("idx", A(SELF, "_qmembers"), A(r, "_requesters")), "priority"), "claimer-priority", fi.qual, f"enters the claimers queue with priority {pr!r} instead of its priority in the requesters queue", ctx.where(fi), pathstr(p))
                            lv = queue_moves(p, "leave", SELF, A(r, "_requesters"))
                ctx.check(len(queue_moves(p, "leave", SELF, A(r, "_requesters"))) == 1, "honored-leaves-requesters", fi.qual, "an honored component stays in the requesters queue of a resource it requested", ctx.where(fi), pathstr(p))
            if oneof:
                ctx.check(len(got) == 1, "exactly-one", fi.qual, f"a oneof request for {n} resources claims {len(got)} of them", ctx.where(fi), pathstr(p))
            else:
                ctx.check(len(got) == n, "all-of-them", fi.qual, f"a request for {n} resources claims {len(got)} of them", ctx.where(fi), pathstr(p))
            ctx.check(emptied(p, "_requests"), "honored-once", fi.qual, "the request is still pending after it was honored", ctx.where(fi), pathstr(p))
            rm = [e for e in p.events if e.kind == "remove" and e.base is SELF]
            rs_ = [e for e in p.events if e.kind == "call" and e.name == ctx.roles.reschedule.qual and e.base is SELF]
            ctx.check(bool(rm) and len(rs_) == 1 and rs_[0].seq > rm[0].seq and rs_[0].args.get("scheduled_time") is NOW, "honored-continues-now", fi.qual, "an honored component does not continue at the current time", ctx.where(fi), pathstr(p))
    ctx.floor("honoring paths", 40)
    # release of one resource
    rel = ctx.roles.release1
    if rel is None:
        raise AnalysisBroken("no function that releases a claim")
    R, Qn = mk("sym", "arg:" + rel.posargs[1]), mk("sym", "arg:" + rel.posargs[2])
    for p in ctx.paths(rel, key="rel", yieldless=False, entry=rel, param_types={rel.posargs[1]: "Resource"}):
        has = implied(p.facts, mk("cmp", "in", R, CLAIMS))
        if p.raised:
            ctx.check(has is False, "release-only-claims", rel.qual, "releasing a claimed resource fails", ctx.where(rel), pathstr(p))
            continue
        if not ctx.check(has is True, "release-only-claims", rel.qual, "a resource that is not claimed can be released", ctx.where(rel), pathstr(p)):
            continue
        ctx.count("release paths")
        none = implied(p.facts, cmp_eq(Qn, NONE))
        over = implied(p.facts, cmp_lt(claim(R), Qn))
        if none is True or over is True:
            amounts = [claim(R)]
        elif none is False and over is False:
            amounts = [Qn]
        elif none is False and implied(p.facts, cmp_lt(claim(R), Qn, False)) is not None:
            amounts = [Qn, claim(R)]
        else:
            amounts = [mk("pure", "min", Qn, claim(R)), mk("pure", "min", claim(R), Qn)]
        c = cset(p, SELF, R)
        f = final(p, R, "_claimed_quantity")
        d = tm.sub(A(R, "_claimed_quantity"), f)
        left = queue_moves(p, "leave", SELF, A(R, "_claimers"))
        sets = [e.value for e in p.events if e.kind == "setitem" and is_attr(e.base, "_claims", SELF) and e.args[0] is R]
        dw = [tm.sub(A(R, "_claimed_quantity"), e.value) for e in wr(p, "_claimed_quantity", R)]
        amt = next((a for a in amounts if any(x is a for x in dw)), None)
        zero = tm.is_num_const(f) and tm.num_value(f) == 0
        if amt is None:
            # computed directly
            amt = amounts[0]
        rest = tm.sub(claim(R), amt)
        small = implied(p.facts, cmp_lt(rest, const(float(TOL)))) if not tm.is_num_const(rest) else tm.num_value(rest) < TOL
        if c is not None and c[0] == "del":
            ctx.check(small is True, "claim-dropped-only-when-empty", rel.qual, f"the claim is dropped although {rest!r} is left", ctx.where(rel), pathstr(p))
            ctx.check(len(left) == 1, "claimer-listed", rel.qual, "a component without claim stays in the claimers queue", ctx.where(rel), pathstr(p))
        else:
            nonpos = implied(p.facts, cmp_lt(const(0), rest))
            ctx.check(not left and small is not True and nonpos is True, "claim-dropped-only-when-empty", rel.qual, "a component whose claim is used up keeps it (or one with a claim left leaves the claimers)", ctx.where(rel), pathstr(p))
            ctx.check(c is not None and c[1] is rest, "claim-equals-claimed", rel.qual, f"the claim becomes {c!r}, {rest!r} required", ctx.where(rel), pathstr(p))
        last = bool(left) and (implied(p.facts, cmp_eq(tm.sub(A(A(R, "_claimers"), "_length"), const(1)), const(0))) is True or implied(p.facts, cmp_lt(A(A(R, "_claimers"), "_length"), const(2))) is True)
        ctx.check(d is amt or (zero and last), "release-frees-the-claim", rel.qual, f"the resource's claimed quantity decreases by {d!r}, the claim by {amt!r}", ctx.where(rel), pathstr(p))
    ctx.floor("release paths", 8)
    # Component.release
    fi = m.need("Component.release")
    args = mk("sym", "arg:args")
    for p in ctx.paths(fi, key="relapi", yieldless=False, entry=fi, extra_handlers={rel.qual: h_call}, loop_k=2):
        calls = [e for e in p.events if e.kind == "call" and e.name == rel.qual]
        if p.raised:
            continue
        given = implied(p.facts, truth(args))
        for e in calls:
            ctx.check(e.base is SELF, "release-own", fi.qual, "releases another component's claim", ctx.where(fi, e.line), pathstr(p))
        if given is False:
            es = elems(p, CLAIMS)
            n = nreq(p, CLAIMS)
            rs = [e.args.get(rel.posargs[1]) for e in calls]
            ctx.check(n is None or len(rs) >= n, "release-all", fi.qual, "release without arguments does not release all claims", ctx.where(fi), pathstr(p))
            for e in calls:
                ctx.check(e.args.get(rel.posargs[2]) in (NONE, None), "release-all", fi.qual, "release without arguments releases only a part", ctx.where(fi), pathstr(p))
            ctx.count("release-all paths")
        elif given is True:
            for i, e in enumerate(calls):
                a = mk("elem", args, i)
                plain = implied(p.facts, mk("cmp", "isinst", a, ("Resource",)))
                r = e.args.get(rel.posargs[1])
                q = e.args.get(rel.posargs[2], NONE)
                two = implied(p.facts, cmp_lt(mk("pure", "len", a), const(2)))
                if plain is True:
                    ctx.check(r is a and q is NONE, "release-args", fi.qual, f"releases {q!r} of {r!r}", ctx.where(fi, e.line), pathstr(p))
                elif plain is False and two is not None:
                    ctx.check(r is mk("idx", a, const(0)) and q is (NONE if two else mk("idx", a, const(1))), "release-args", fi.qual, f"releases {q!r} of {r!r}", ctx.where(fi, e.line), pathstr(p))
                if r is not None:
                    ctx.check(implied(p.facts, truth(A(r, "_anonymous"))) is not True, "release-args", fi.qual, "an anonymous resource is released by a component", ctx.where(fi, e.line), pathstr(p))
    ctx.floor("release-all paths", 2)
    # Resource.release
    fi = m.need("Resource.release")
    cq, qa = A(SELF, "_claimed_quantity"), mk("sym", "arg:quantity")
    crel = m.need("Component.release")
    for p in ctx.paths(fi, key="resrel", yieldless=False, entry=fi, extra_handlers={crel.qual: h_call, rel.qual: h_call}):
        anon = implied(p.facts, truth(A(SELF, "_anonymous")))
        none = implied(p.facts, cmp_eq(qa, NONE))
        if p.raised:
            ctx.check(anon is False and none is False, "resource-release", fi.qual, "releasing a resource fails", ctx.where(fi), pathstr(p))
            continue
        if anon is True:
            f = final(p, SELF, "_claimed_quantity")
            rest = const(0) if none else tm.sub(cq, qa)
            zero = tm.is_num_const(f) and tm.num_value(f) == 0
            ok = f is rest or (zero and implied(p.facts, cmp_lt(rest, const(float(TOL)))) is True)
            ctx.check(ok, "resource-release", fi.qual, f"the claimed quantity of an anonymous resource becomes {f!r}", ctx.where(fi), pathstr(p))
            if f is rest and not none:
                ctx.check(implied(p.facts, cmp_lt(rest, const(0))) is False, "resource-release", fi.qual, "the claimed quantity of an anonymous resource can become negative", ctx.where(fi), pathstr(p))
            ctx.count("anonymous release paths")
        else:
            ctx.check(none is True, "resource-release", fi.qual, "a quantity is accepted for a non anonymous resource", ctx.where(fi), pathstr(p))
            ctx.check(not wr(p, "_claimed_quantity", SELF), "resource-release", fi.qual, "the claimed quantity is changed without the claims", ctx.where(fi), pathstr(p))
            some = implied(p.facts, cmp_lt(A(A(SELF, "_claimers"), "_length"), const(1)))
            calls = [e for e in p.events if e.kind == "call" and e.name in (crel.qual, rel.qual)]
            if some is False:
                ctx.check(bool(calls) and all(SELF in _flat(e.args) for e in calls), "resource-release", fi.qual, "the claimers are not made to release the resource", ctx.where(fi), pathstr(p))
    ctx.floor("anonymous release paths", 4)
    # capacity changes do not touch claims
    for q in ("Resource.set_capacity",):
        fi = m.need(q)
        for p in ctx.paths(fi, key="cap", yieldless=False, entry=fi):
            ctx.check(not wr(p, "_claimed_quantity") and not [e for e in p.events if e.kind in ("setitem", "delitem") and is_attr(e.base, "_claims")], "capacity-keeps-claims", fi.qual, "changing the capacity changes claims", ctx.where(fi), pathstr(p))
            w = wr(p, "_capacity", SELF)
            ctx.check(p.raised or (bool(w) and w[-1].value is mk("sym", "arg:cap")), "capacity-set", fi.qual, f"capacity becomes {w[-1].value if w else None!r}", ctx.where(fi), pathstr(p))
    # recording the request
    request_recorded(ctx)
    spec_args(ctx)
    getters(ctx)
    # who may write
    allow = {"Resource.__init__", "Component.__init__"}
    for f in m.all_funcs():
        if f.qual in allow or f.qual in ctx.analysed:
            continue
        w = m.direct_writes(f.node)
        ctx.count("functions searched for writes")
        ctx.check("_claimed_quantity" not in w and "_claims" not in w, "who-may-write-claims", f.qual, "writes claim bookkeeping outside of request, release and termination", ctx.where(f))


def _flat(args):
    out = []
    for v in (args or {}).values():
        if isinstance(v, tm.T):
            out.append(v)
            if v.op in ("tuple", "list"):
                out.extend(v.a)
        elif isinstance(v, (tuple, list)):
            out.extend(v)
    return out


def spec_args(ctx):
    """each documented form of a specifier: resource, (resource,), (resource, quantity), (resource, quantity, priority)"""
    fi, rel = ctx.m.need("Component.request"), ctx.roles.release1
    R, Q, PR, R2 = (mk("sym", "arg:" + x) for x in ("r1", "q1", "p1", "r2"))
    dp = mk("sym", "arg:request_priority")
    pt = {"r1": "Resource", "r2": "Resource"}
    pos = [(cmp_lt(Q, const(0)), False), (cmp_eq(R, R2), False)]
    forms = [((R,), [(R, const(1), dp)]), ((mk("tuple", R),), [(R, const(1), dp)]), ((mk("tuple", R, Q),), [(R, Q, dp)]), ((mk("tuple", R, Q, PR),), [(R, Q, PR)]), ((mk("tuple", R2, Q, PR), R), [(R2, Q, PR), (R, const(1), dp)])]
    if ctx.tier == "thorough":
        forms.append((((mk("tuple", R, Q, PR), mk("tuple", R2))), [(R, Q, PR), (R2, const(1), dp)]))

    def pre(eng, st):
        sts = [st]
        for lit, v in pos + [(truth(A(SELF, "_requests")), False)]:
            sts = [y for x in sts for y in assume(x, lit, v)]
        return sts

    eh = {ctx.roles.reschedule.qual: h_call, "Monitor.tally": h_tally_status}
    for k, (args, want) in enumerate(forms):
        for cf in ("request", "get", "put"):
            if cf == "put" and k not in (0, 2):
                continue
            n = 0
            for p in ctx.paths(fi, key=f"spec{k}{cf}", args={"args": mk("tuple", *args), "called_from": const(cf), "fail_at": NONE, "fail_delay": NONE, "mode": NONE}, yieldless=False, entry=fi, extra_handlers=eh, param_types=pt, assume={"_preemptive": False, "_trace": False}, pre=pre):
                if p.raised:
                    continue
                n += 1
                ctx.count("request forms")
                for r, q, pr in want:
                    q = tm.neg(q) if cf == "put" else q
                    sets = [e for e in p.events if e.kind == "setitem" and e.args and e.args[0] is r and (is_attr(e.base, "_requests", SELF) or e.base.op == "new")]
                    ctx.check(bool(sets) and (sets[-1].value is q or sets[-1].value is tm.add(mk("idx", sets[-1].base, r), q)), "specifier-read", fi.qual, f"for {args!r} the quantity recorded for {r!r} is {[e.value for e in sets]!r}, {q!r} required", ctx.where(fi), pathstr(p))
                    ent = queue_moves(p, "enter", SELF, A(r, "_requesters"))
                    isin = implied(p.facts, mk("cmp", "in", SELF, A(r, "_requesters")))
                    ctx.check((len(ent) == 1 and ent[0].args is pr) or (not ent and isin is True), "specifier-read", fi.qual, f"for {args!r} the requesters queue of {r!r} is entered with priority {[e.args for e in ent]!r}, {pr!r} required", ctx.where(fi), pathstr(p))
            ctx.check(n > 0, "specifier-read", fi.qual, f"the specifier {args!r} is not accepted", ctx.where(fi))
    fi = ctx.m.need("Component.release")
    for k, (args, want) in enumerate([((R,), [(R, NONE)]), ((mk("tuple", R),), [(R, NONE)]), ((mk("tuple", R, Q),), [(R, Q)]), ((mk("tuple", R, Q), R2), [(R, Q), (R2, NONE)]), ((R2, mk("tuple", R, Q)), [(R2, NONE), (R, Q)])]):
        n = 0
        for p in ctx.paths(fi, key=f"spec{k}", args={"args": mk("tuple", *args)}, yieldless=False, entry=fi, extra_handlers={rel.qual: h_call}, param_types=pt):
            if p.raised:
                continue
            n += 1
            ctx.count("release forms")
            calls = [e for e in p.events if e.kind == "call" and e.name == rel.qual and e.base is SELF]
            got = [(e.args.get(rel.posargs[1]), e.args.get(rel.posargs[2], NONE)) for e in calls]
            ctx.check(len(got) == len(want) and all(a is c and b is d for (a, b), (c, d) in zip(got, want)), "specifier-read", fi.qual, f"for {args!r} released are {got!r}, {want!r} required", ctx.where(fi), pathstr(p))
        ctx.check(n > 0, "specifier-read", fi.qual, f"the specifier {args!r} is not accepted", ctx.where(fi))


def request_recorded(ctx):
    fi = ctx.m.need("Component.request")
    args = mk("sym", "arg:args")
    cf = mk("sym", "arg:called_from")
    eh = {ctx.roles.reschedule.qual: h_call, "Monitor.tally": h_tally_status}
    for pre in (False, True):
        for p in ctx.paths(fi, key=f"rec{pre}", yieldless=False, entry=fi, assume={"_preemptive": pre}, extra_handlers=dict(eh, **({ctx.roles.release1.qual: h_call, "Component.activate": h_call} if pre else {})), max_paths=20000):
            given = implied(p.facts, truth(args))
            if p.raised or given is not True:
                continue
            a = mk("elem", args, 0)
            plain = implied(p.facts, mk("cmp", "isinst", a, ("Resource",)))
            ln = mk("pure", "len", a)
            l2, l3 = implied(p.facts, cmp_lt(ln, const(2))), implied(p.facts, cmp_lt(ln, const(3)))
            put = implied(p.facts, cmp_eq(cf, const("put")))
            if plain is None or put is None or (plain is False and (l2 is None or (l2 is False and l3 is None))):
                continue
            r = a if plain else mk("idx", a, const(0))
            q = const(1) if plain or l2 else mk("idx", a, const(1))
            prio = mk("sym", "arg:request_priority") if plain or l2 or l3 else mk("idx", a, const(2))
            if put:
                q = tm.neg(q)
            ctx.count("recorded request paths")
            sets = [e for e in p.events if e.kind == "setitem" and e.args and e.args[0] is r and (is_attr(e.base, "_requests", SELF) or e.base.op == "new")]
            ok = False
            for e in sets:
                if e.value is q:
                    ok = implied(p.facts, mk("cmp", "in", r, e.base)) is not True
                elif e.value is tm.add(mk("idx", e.base, r), q):
                    ok = True
            ctx.check(ok, "quantity-recorded", fi.qual, f"the quantity recorded is {[e.value for e in sets]!r}, {q!r} required", ctx.where(fi), pathstr(p))
            ent = queue_moves(p, "enter", SELF, A(r, "_requesters"))
            isin = implied(p.facts, mk("cmp", "in", SELF, A(r, "_requesters")))
            ctx.check(len(ent) == (0 if isin is True else 1), "requester-listed", fi.qual, "a requesting component does not enter the requesters queue exactly once", ctx.where(fi), pathstr(p))
            for e in ent:
                ctx.check(e.args is prio, "requester-priority", fi.qual, f"enters the requesters queue with priority {e.args!r}, {prio!r} required", ctx.where(fi, e.line), pathstr(p))
            neg_ = implied(p.facts, cmp_lt(q, const(0)))
            anon = implied(p.facts, truth(A(r, "_anonymous")))
            ctx.check(neg_ is False or anon is True, "no-negative-claim", fi.qual, "a negative quantity may be requested from a resource that is not anonymous", ctx.where(fi), pathstr(p))
            tr = [e for e in p.events if e.kind == "try" and e.base is SELF]
            ctx.check(len(tr) == 1 and (not ent or tr[0].seq > ent[-1].seq) and (not sets or tr[0].seq > sets[-1].seq), "tried-at-once", fi.qual, "a new request is not tried at once after it is recorded", ctx.where(fi), pathstr(p))
            oo = wr(p, "oneof_request", SELF)
            ctx.check(bool(oo) and (oo[-1].value is mk("sym", "arg:oneof")) and (not tr or oo[-1].seq < tr[0].seq), "oneof-recorded", fi.qual, "oneof is not recorded before the request is tried", ctx.where(fi), pathstr(p))
    ctx.floor("recorded request paths", 200)
    for nm in ("get", "put"):
        f = ctx.m.need("Component." + nm)
        ok = False
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                for kw in n.keywords:
                    if kw.arg == "called_from" and isinstance(kw.value, ast.Constant) and kw.value.value == nm:
                        ok = True
        ctx.check(ok, "put-and-get", f.qual, f"{nm} does not identify itself to request", ctx.where(f))


def getters(ctx):
    m = ctx.m
    R = mk("sym", "arg:resource")
    for nm, attr in (("claimed_quantity", "_claims"), ("requested_quantity", "_requests")):
        fi = m.need("Component." + nm)
        for p in ctx.paths(fi, key="get", entry=fi, yieldless=False):
            if p.raised:
                continue
            none = implied(p.facts, cmp_eq(R, NONE))
            if none is None:
                none = implied(p.facts, truth(R))
                none = None if none is None else not none
            v = p.outcome[1]
            d = A(SELF, attr)
            has = implied(p.facts, mk("cmp", "in", R, d))
            if none is not True:
                ok = (has is True and v is mk("idx", d, R)) or (has is False and v is const(0)) or (has is None and v is mk("pure", "get", d, R, const(0)))
                ctx.check(ok, "claims-reported", fi.qual, f"reports {v!r}", ctx.where(fi), pathstr(p))
    fi = m.need("Component.isclaiming")
    rs = mk("sym", "arg:resource")
    for p in ctx.paths(fi, key="get", entry=fi, yieldless=False):
        if p.raised:
            continue
        if implied(p.facts, cmp_eq(rs, NONE)) is False:
            v = p.outcome[1]
            w = mk("cmp", "in", SELF, A(rs, "_claimers"))
            r = implied(p.facts, w)
            ctx.check(truth(v) is w or (r is not None and v is (TRUE if r else FALSE)), "claims-reported", fi.qual, f"reports {v!r}", ctx.where(fi), pathstr(p))
    # without a resource: is the component in the claimers of any?
    marks = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            marks.add(n.args[1].value)
    ini = m.need("Resource.__init__")
    for x in marks:
        for p in ctx.paths(ini, key="marks", yieldless=False, entry=ini, extra_handlers={"Queue.__init__": h_skip}):
            if p.raised:
                continue
            cl = final(p, SELF, "_claimers")
            rq = final(p, SELF, "_requesters")
            w = [e for e in p.events if e.kind == "write" and e.name == x]
            ctx.check(any(e.base is cl for e in w), "claimers-recognised", ini.qual, f"the claimers queue is not marked as such ({x}), so isclaiming() does not see it", ctx.where(ini), pathstr(p))
            ctx.check(not any(e.base is rq for e in w), "claimers-recognised", ini.qual, f"the requesters queue is marked as claimers ({x})", ctx.where(ini), pathstr(p))
    fi = m.get("Component.isbumped")
    if fi:
        for p in ctx.paths(fi, key="get", entry=fi, yieldless=False, extra_handlers={"Component.isclaiming": h_pure("isclaiming")}):
            if p.raised:
                continue
            v = p.outcome[1]
            w = mk("pure", "isclaiming", rs)
            r = implied(p.facts, truth(w))
            ctx.check(truth(v) is neg(truth(w)) or (r is not None and v is (FALSE if r else TRUE)), "claims-reported", fi.qual, f"reports {v!r}", ctx.where(fi), pathstr(p))


# ---------------------------------------------------------------- C09 capacity guard
def fits(p, r):
    q = req(r)
    av = tm.sub(A(r, "_capacity"), A(r, "_claimed_quantity"))
    f1 = implied(p.facts, cmp_lt(tm.add(av, const(float(TOL))), q))
    f2 = implied(p.facts, cmp_lt(tm.add(A(r, "_claimed_quantity"), const(float(TOL))), tm.neg(q)))
    notneg = implied(p.facts, cmp_lt(q, const(0))) is False
    notpos = implied(p.facts, cmp_lt(const(0), q)) is False
    return (notneg and f1 is False) or (notpos and f2 is False) or (f1 is False and f2 is False)


def qelem(q, i):
    return mk("elem", q, i, A(q, "_length"))


def is_first(p, r):
    q = A(r, "_requesters")
    for f, v in p.facts.items():
        if f.op == "cmp" and f.a[0] == "eq" and SELF in f.a[1:] and any(x is not SELF and x.op == "elem" and x.a[0] is q and x.a[1] == 0 for x in f.a[1:]):
            return v
    return None


def prio_eq(p, r):
    own = mk("attr", mk("idx", A(SELF, "_qmembers"), A(r, "_requesters")), "priority")
    for f, v in p.facts.items():
        if f.op == "cmp" and f.a[0] in ("eq", "eq0"):
            st = list(subterms(f))
            if own in st and any(x is not own and x.op == "attr" and x.a[1] == "priority" for x in st):
                return v
        if f.op == "cmp" and f.a[0] in ("lt", "le"):
            st = list(subterms(f))
            if own in st and any(x is not own and x.op == "attr" and x.a[1] == "priority" for x in st):
                # own priority compared with that of the head: equal or lower ranked
                return None
    return None


def prio_differs(p, r):
    own = mk("attr", mk("idx", A(SELF, "_qmembers"), A(r, "_requesters")), "priority")
    e = prio_eq(p, r)
    if e is not None:
        return not e
    fs = FactState(p.facts)
    for base, (lo, los, hi, his) in fs.iv.items():
        st = list(subterms(base))
        if own in st and any(x is not own and x.op == "attr" and x.a[1] == "priority" for x in st):
            if (lo is not None and (lo > 0 or (lo == 0 and los))) or (hi is not None and (hi < 0 or (hi == 0 and his))):
                return True
            return False
    return None


def blocked(p, r):
    q = req(r)
    av = tm.sub(A(r, "_capacity"), A(r, "_claimed_quantity"))
    # more than a rounding error is lacking
    if implied(p.facts, cmp_lt(tm.add(av, const(1e-12)), q)) is True and implied(p.facts, cmp_lt(q, const(0))) is False:
        return "not enough available"
    if implied(p.facts, cmp_lt(tm.add(A(r, "_claimed_quantity"), const(1e-12)), tm.neg(q))) is True and implied(p.facts, cmp_lt(const(0), q)) is False:
        return "not enough claimed to put back"
    if implied(p.facts, truth(A(r, "_honor_only_first"))) is True and is_first(p, r) is False:
        return "not first"
    if implied(p.facts, truth(A(r, "_honor_only_highest_priority"))) is True and prio_differs(p, r) is True:
        return "not highest priority"
    return None


@prop("C09")
def c09(ctx):
    for oneof in (False, True):
        for mode in ("acc", "guard"):
            fi, ps = try_paths(ctx, mode, oneof)
            for p in ps:
                if p.raised or not feasible_try(p):
                    continue
                n = nreq(p)
                rs = elems(p)
                if p.outcome[1] is TRUE:
                    for r in rs:
                        if not wr(p, "_claimed_quantity", r):
                            continue
                        ctx.count("claims checked")
                        ctx.check(fits(p, r), "never-over-capacity", fi.qual, f"{req(r)!r} is claimed although it may not be available (or more may be put back than is claimed)", ctx.where(fi), pathstr(p, 14))
                        if implied(p.facts, truth(A(r, "_honor_only_first"))) is not False and mode == "guard":
                            ctx.check(is_first(p, r) is True, "honor-only-first", fi.qual, "a request that is not the first is honored by an honor_only_first resource", ctx.where(fi), pathstr(p, 14))
                        if implied(p.facts, truth(A(r, "_honor_only_highest_priority"))) is not False and mode == "guard":
                            ctx.check(prio_differs(p, r) is False, "honor-only-highest-priority", fi.qual, "a request without the highest priority is honored by an honor_only_highest_priority resource", ctx.where(fi), pathstr(p, 14))
                    ctx.check(implied(p.facts, cmp_eq(status_of(SELF), const("interrupted"))) is False, "not-while-interrupted", fi.qual, "the request of an interrupted component is honored", ctx.where(fi), pathstr(p))
                elif p.outcome[1] is FALSE:
                    if implied(p.facts, cmp_eq(status_of(SELF), const("interrupted"))) is True or n == 0 or implied(p.facts, truth(REQS)) is False:
                        continue
                    b = [blocked(p, r) for r in rs]
                    ctx.count("refusals checked")
                    if oneof:
                        ok = n is not None and len(rs) >= n and all(b[:n])
                        ctx.check(ok, "refused-only-when-blocked", fi.qual, f"a oneof request is refused although one of its resources may be able to honor it ({b})", ctx.where(fi), pathstr(p, 14))
                    else:
                        ctx.check(any(b), "refused-only-when-blocked", fi.qual, "a request is refused although all of it may be available", ctx.where(fi), pathstr(p, 14))
    ctx.floor("claims checked", 100)
    ctx.floor("refusals checked", 12)
    # nothing else raises a claim
    ct = ctx.roles.comp_tryrequest
    rel = ctx.roles.release1
    for f in ctx.m.all_funcs():
        if f.qual in ("Resource.__init__",) or f.qual in ctx.analysed or (rel and f.qual == rel.qual):
            continue
        for n in own_nodes(f.node):
            up = isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Attribute) and n.target.attr == "_claimed_quantity"
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == "_claimed_quantity" or isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_claimed_quantity" for t in n.targets):
                ctx.count("other writers of the claimed quantity")
                ctx.check(not up, "only-honoring-claims", f.qual, "increases the claimed quantity without the capacity test", ctx.where(f, n.lineno))
    # initial
    # availability reported to the user and used for preemption
    fi = ctx.m.need("Resource.set_capacity")


# ---------------------------------------------------------------- C10 monitors
MON = ("claimed_quantity", "available_quantity", "occupancy", "capacity")


def want_value(mon, claimed, cap, facts):
    if mon == "claimed_quantity":
        return [claimed]
    if mon == "available_quantity":
        return [tm.sub(cap, claimed)]
    if mon == "capacity":
        return [cap]
    pos = implied(facts, cmp_lt(const(0), cap))
    if pos is True:
        return [tm.div(claimed, cap)] + ([const(0)] if tm.is_num_const(claimed) and tm.num_value(claimed) == 0 else [])
    if pos is False:
        return [const(0)]
    z = tm.is_num_const(claimed) and tm.num_value(claimed) == 0
    return [const(0)] if z else []


@prop("C10")
def c10(ctx):
    m = ctx.m
    subj = []
    fi, ps = try_paths(ctx, "full")
    subj.append((fi, ps))
    rel = ctx.roles.release1
    subj.append((rel, ctx.paths(rel, key="rel", yieldless=False, entry=rel, param_types={rel.posargs[1]: "Resource"})))
    for q in ("Resource.release", "Resource.set_capacity"):
        f = m.need(q)
        subj.append((f, ctx.paths(f, key="mon", yieldless=False, entry=f)))
    seen = set()
    for fi, ps in subj:
        for p in ps:
            if p.raised:
                continue
            rs = []
            for e in p.events:
                if e.kind == "write" and e.name in ("_claimed_quantity", "_capacity") and e.base not in rs:
                    rs.append(e.base)
            for r in rs:
                claimed, cap = final(p, r, "_claimed_quantity"), final(p, r, "_capacity")
                lastw = max(e.seq for e in p.events if e.kind == "write" and e.name in ("_claimed_quantity", "_capacity") and e.base is r)
                # other components are served (and see the monitors) only afterwards
                serve = [e.seq for e in p.events if e.seq > lastw and e.kind == "call" and e.name == (ctx.roles.res_tryrequest.qual if ctx.roles.res_tryrequest else "")]
                mons = ["available_quantity", "occupancy"]
                if wr(p, "_claimed_quantity", r):
                    mons.append("claimed_quantity")
                if wr(p, "_capacity", r):
                    mons.append("capacity")
                for mon in mons:
                    ts = [e for e in p.events if e.kind == "tally" and is_attr(e.base, mon, r)]
                    w = want_value(mon, claimed, cap, p.facts)
                    v = ts[-1].value if ts else None
                    ctx.count("monitored changes")
                    seen.add((fi.qual, mon))
                    ctx.check(v is not None and any(v is x for x in w) and (not serve or ts[-1].seq < serve[0]), "monitor-follows", fi.qual, f"after a change the {mon} monitor has {v!r}, {w!r} required", ctx.where(fi, ts[-1].line if ts else None), pathstr(p, 12))
    ctx.floor("monitored changes", 60)
    # initial values
    fi = m.need("Resource.__init__")
    cap, ini = mk("sym", "arg:capacity"), mk("sym", "arg:initial_claimed_quantity")
    for p in ctx.paths(fi, key="init", yieldless=False, entry=fi, extra_handlers={"Queue.__init__": h_skip}):
        if p.raised:
            continue
        for mon in MON:
            w = [e for e in p.events if e.kind == "write" and e.name == mon and e.base is SELF]
            if not ctx.check(bool(w) and w[-1].value.op == "new", "monitor-starts", fi.qual, f"no {mon} monitor", ctx.where(fi), pathstr(p)):
                continue
            new = [e for e in p.events if e.kind == "new" and e.base is w[-1].value]
            v = new[-1].args.get("initial_tally") if new else None
            claimed = final(p, SELF, "_claimed_quantity")
            c = final(p, SELF, "_capacity")
            ws = want_value(mon, claimed, c, p.facts)
            ctx.count("initial values")
            ctx.check(v is not None and any(v is x for x in ws), "monitor-starts", fi.qual, f"the {mon} monitor starts with {v!r}, {ws!r} required", ctx.where(fi), pathstr(p))
            lv = new[-1].args.get("level") if new else None
            ctx.check(lv is TRUE, "monitor-starts", fi.qual, f"the {mon} monitor is not a level monitor", ctx.where(fi), pathstr(p))
    ctx.floor("initial values", 4)


# ---------------------------------------------------------------- C11 wake-ups
def h_tryres(eng, st, recv, b, node, fi):
    Q = A(SELF, "_requesters")
    st = eng.event(st, Ev("try", recv, fi.qual), node)
    no = st.clone()
    no.heap[(Q, ("in", recv))] = TRUE
    yes = st.clone()
    yes = eng.event(yes, Ev("honored", recv, fi.qual), node)
    yes.heap[(Q, "_length")] = tm.sub(eng.rd(Q, "_length", yes), const(1))
    yes.heap[(Q, ("in", recv))] = FALSE
    eng.havoc(yes, {"_claimed_quantity", "_minq"})
    _bumpq(yes, Q)
    return [(yes, TRUE), (no, FALSE)]


def attr_coef(base):
    c, p = tm.lin_parts(base)
    out = {}
    for t, v in p.items():
        if t.op == "attr" and t.a[0] is SELF:
            out[t.a[1]] = (v, t.a[2] if len(t.a) > 2 else 0)
        else:
            return None
    return out


def honor_slack(ctx):
    """by how much a request that is honored may exceed what is available (rounding)"""
    if hasattr(ctx, "_slack"):
        return ctx._slack
    fi, ps = try_paths(ctx, "guard", False)
    out = Fraction(0)
    for p in ps:
        if p.raised or p.outcome[1] is not TRUE:
            continue
        for e in p.events:
            if e.kind == "write" and e.name == "_claimed_quantity":
                q = req(e.base)
                over = tm.sub(q, tm.sub(A(e.base, "_capacity"), A(e.base, "_claimed_quantity")))
                for d in (0, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6):
                    if implied(p.facts, cmp_lt(const(d), over)) is False:
                        out = max(out, Fraction(d))
                        break
    ctx._slack = out
    return out


@prop("C11")
def c11(ctx):
    m = ctx.m
    rt = ctx.roles.res_tryrequest
    ct = ctx.roles.comp_tryrequest
    rel = ctx.roles.release1
    if rt is None or ct is None or rel is None:
        raise AnalysisBroken("no function that offers a resource to its requesters")

    def serves(p, r, after):
        return any(e.kind == "call" and e.name == rt.qual and e.base is r and e.seq > after for e in p.events)

    R = mk("sym", "arg:" + rel.posargs[1])
    bb = mk("sym", "arg:bumped_by") if "bumped_by" in rel.posargs else None
    for p in ctx.paths(rel, key="rel", yieldless=False, entry=rel, param_types={rel.posargs[1]: "Resource"}):
        if p.raised:
            continue
        w = wr(p, "_claimed_quantity", R)
        bumped = bb is not None and (implied(p.facts, truth(bb)) is True or implied(p.facts, cmp_eq(bb, NONE)) is False)
        if w and not bumped:
            ctx.count("quantity freed")
            ctx.check(serves(p, R, w[-1].seq), "freed-is-offered", rel.qual, "a released quantity is not offered to the requesters", ctx.where(rel), pathstr(p))
    for q in ("Resource.release", "Resource.set_capacity"):
        fi = m.need(q)
        for p in ctx.paths(fi, key="mon", yieldless=False, entry=fi):
            if p.raised:
                continue
            for e in p.events:
                if e.kind == "write" and e.name in ("_claimed_quantity", "_capacity"):
                    if e.name == "_capacity" and implied(p.facts, cmp_lt(A(e.base, "_capacity"), e.value)) is False:
                        continue  # it does not grow
                    ctx.count("quantity freed")
                    ctx.check(serves(p, e.base, e.seq), "freed-is-offered", fi.qual, "what becomes available is not offered to the requesters", ctx.where(fi, e.line), pathstr(p))
    # honoring may make it possible to honor others: a put, a preemption surplus, a new first requester
    for y in (False, True):
        fi, ps = try_paths(ctx, "full", y=y)
        for p in ps:
            if p.raised or p.outcome[1] is not TRUE or not feasible_try(p):
                continue
            sw = [e.seq for e in p.events if e.kind == "switch"]
            for e in p.events:
                if e.kind == "leave" and e.base is SELF and is_attr(e.value, "_requesters"):
                    r = e.value.a[0]
                    need = [a for a in ("_anonymous", "_preemptive", "_honor_only_first", "_honor_only_highest_priority") if implied(p.facts, truth(A(r, a))) is True]
                    if need:
                        ctx.count("chances created by honoring")
                        sv = [x.seq for x in p.events if x.kind == "call" and x.name == rt.qual and x.base is r and x.seq > e.seq]
                        ctx.check(bool(sv) and (not sw or sv[-1] < sw[0]), "honoring-is-followed-up", fi.qual, f"a request is honored (resource {need[0][1:]}) but the other requesters are not tried before the component continues", ctx.where(fi, e.line), pathstr(p, 14))
    # failing too
    cf = ctx.roles.check_fail
    if cf:
        for p in ctx.paths(cf, key="cf11", yieldless=False, entry=cf):
            if p.raised:
                continue
            for e in p.events:
                if e.kind == "leave" and e.base is SELF and is_attr(e.value, "_requesters"):
                    r = e.value.a[0]
                    if any(implied(p.facts, truth(A(r, a))) is True for a in ("_honor_only_first", "_honor_only_highest_priority")):
                        ctx.count("chances created by failing")
                        ctx.check(serves(p, r, e.seq), "failing-is-followed-up", cf.qual, "a requester that gives up leaves an honor_only resource without trying the next one", ctx.where(cf, e.line), pathstr(p))
    # the walk
    Q = A(SELF, "_requesters")
    L = A(Q, "_length")
    for p in ctx.paths(rt, key="walk", yieldless=False, entry=rt, loop_k=3 if ctx.tier != "quick" else 2, extra_handlers={ct.qual: h_tryres}):
        if p.raised:
            continue
        tries = [e for e in p.events if e.kind in ("try", "honored")]
        honored = [e for e in tries if e.kind == "honored"]
        after = [e for e in tries if e.kind == "try" and (not honored or e.seq > honored[-1].seq)]
        tr = wr(p, "_trying", SELF)
        ctx.check(not tr or tr[-1].value is FALSE, "walk-can-be-repeated", rt.qual, "the resource stays marked as being tried: it never serves its requesters again", ctx.where(rt), pathstr(p))
        ctx.count("walks")
        for a, b in zip(tries, tries[1:]):
            ctx.check(not (a.kind == b.kind == "try" and a.base is b.base), "walk-goes-on", rt.qual, "a requester that cannot be honored is tried again and again", ctx.where(rt, b.line), pathstr(p))
        if implied(p.facts, truth(A(SELF, "_trying"))) is True and not tries:
            continue
        total = len(honored) + len({e.base for e in after})
        if implied(p.facts, cmp_lt(L, const(total + 1))) is True:
            ctx.ok("walk-complete")
            continue
        if implied(p.facts, truth(A(SELF, "_honor_only_first"))) is True and after:
            ctx.ok("walk-complete")
            continue
        if implied(p.facts, truth(A(SELF, "_honor_only_highest_priority"))) is True and after and any(f.op == "cmp" and f.a[0] in ("eq", "eq0", "lt", "le") and sum(x.op == "attr" and x.a[1] == "priority" for x in subterms(f)) >= 2 for f in p.facts):
            ctx.ok("walk-complete")
            continue
        # nothing is left for even the smallest request (allowing for the rounding that honoring allows for)
        full = False
        slack = honor_slack(ctx)
        fs = FactState(p.facts)
        for base, (lo, los, hi, his) in fs.iv.items():
            co = attr_coef(base)
            if not co or set(co) != {"_minq", "_capacity", "_claimed_quantity"}:
                continue
            s = co["_minq"][0]
            if not (co["_capacity"][0] == -s and co["_claimed_quantity"][0] == s):
                continue
            # s * (minq - capacity + claimed)
            margin = (lo if s > 0 else None if hi is None else -hi)
            if margin is not None and s not in (1, -1):
                margin = margin / abs(s)
            if margin is not None and margin >= slack and (not honored or co["_claimed_quantity"][1]):
                full = True
        ctx.check(full and implied(p.facts, truth(A(SELF, "_anonymous"))) is not True, "walk-complete", rt.qual, "the walk over the requesters ends before all of them were tried", ctx.where(rt), pathstr(p, 12))
    ctx.floor("walks", 8)
    ctx.floor("quantity freed", 8)
    ctx.floor("chances created by honoring", 4)
    # the shortcut used by the walk is a lower bound
    fi = m.need("Component.request")
    for p in ctx.paths(fi, key="recFalse", yieldless=False, entry=fi, assume={"_preemptive": False}, extra_handlers={ctx.roles.reschedule.qual: h_call, "Monitor.tally": h_tally_status}, max_paths=20000):
        if p.raised:
            continue
        tr = [e for e in p.events if e.kind == "try"]
        for e in p.events:
            if e.kind != "enter" or not is_attr(e.value, "_requesters") or e.base is not SELF:
                continue
        rq = [t for t in {e.base for e in p.events if e.kind == "setitem" and e.args and isinstance(e.args[0], tm.T)} if is_attr(t, "_requests", SELF) or t.op == "new"]
        for d in rq:
            for r in elems(p, d):
                q = mk("idx", d, r)
                w = [e for e in wr(p, "_minq", r) if not tr or e.seq < tr[0].seq]
                v = w[-1].value if w else A(r, "_minq")
                ok = v is q or implied(p.facts, cmp_lt(q, v)) is False or (v.op == "pure" and v.a[0] == "min" and q in v.a)
                ctx.count("smallest pending request")
                ctx.check(ok, "smallest-request-known", fi.qual, f"after a request the smallest pending quantity is {v!r}: the new request may be skipped by the walk", ctx.where(fi), pathstr(p))
        if rq and not any(elems(p, d) for d in rq):
            keys = [e.args[0] for e in p.events if e.kind == "setitem" and e.base in rq]
            for k in keys:
                w = wr(p, "_minq", k)
                if w:
                    ctx.count("smallest pending request")
    ctx.floor("smallest pending request", 100)
    for f in m.all_funcs():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_minq" for t in n.targets) and f.qual not in ("Resource.__init__",):
                ctx.count("writers of the smallest pending quantity")
    fi, ps = try_paths(ctx, "full")
    for p in ps:
        minq_reset(ctx, fi, p)
    if ctx.roles.check_fail:
        for p in ctx.paths(ctx.roles.check_fail, key="cf11", yieldless=False, entry=ctx.roles.check_fail):
            minq_reset(ctx, ctx.roles.check_fail, p)


def minq_reset(ctx, fi, p):
    """the smallest pending quantity is only raised when no requester is left"""
    for e in wr(p, "_minq"):
        r = e.base
        if implied(e.facts, cmp_lt(A(r, "_minq"), e.value)) is False:
            continue
        ql = A(A(r, "_requesters"), "_length")
        empty = implied(e.facts, cmp_lt(ql, const(2))) is True or implied(e.facts, cmp_eq(tm.sub(ql, const(1)), const(0))) is True
        ctx.count("smallest pending quantity raised")
        ctx.check(empty, "smallest-request-known", fi.qual, "the smallest pending quantity is reset while there are other requesters", ctx.where(fi, e.line), pathstr(p, 12))


# ---------------------------------------------------------------- C12 preemption
@prop("C12")
def c12(ctx):
    m = ctx.m
    rel = ctx.roles.release1
    fi = m.need("Component.request")
    args = mk("sym", "arg:args")
    eh = {ctx.roles.reschedule.qual: h_call, "Monitor.tally": h_tally_status, rel.qual: h_call, "Component.activate": h_call}
    fixed = {"fail_at": NONE, "fail_delay": NONE, "mode": NONE, "called_from": const("request")}
    for p in ctx.paths(fi, key="pre", args=fixed, yieldless=False, entry=fi, assume={"_preemptive": True, "_anonymous": False}, extra_handlers=eh, loop_k=2 if ctx.tier == "quick" else 3, max_paths=60000):
        several = None
        for f, v in p.facts.items():
            if f.op == "cmp" and f.a[0] in ("more",) and f.a[1] is args and f.a[2] == 1:
                several = v
        if several is None:
            s = implied(p.facts, cmp_lt(mk("pure", "len", args), const(2)))
            several = None if s is None else not s
        bumps = [e for e in p.events if e.kind == "call" and e.name == rel.qual]
        if p.raised:
            continue
        if any(f.op == "cmp" and f.a[0] == "in" and is_attr(f.a[2], "_claims") and f.a[2].a[0].op == "elem" and is_attr(f.a[2].a[0].a[0], "_claimers", f.a[1]) and v is False for f, v in p.facts.items()):
            continue  # a member of the claimers queue has a claim
        if implied(p.facts, truth(args)) is not True:
            ctx.check(not bumps, "bump-only-for-request", fi.qual, "something is bumped without a request", ctx.where(fi), pathstr(p))
            continue
        ctx.check(several is not True, "one-preemptive-at-a-time", fi.qual, "a preemptive resource is requested together with others", ctx.where(fi), pathstr(p))
        a = mk("elem", args, 0)
        plain = implied(p.facts, mk("cmp", "isinst", a, ("Resource",)))
        ln = mk("pure", "len", a)
        l2, l3 = implied(p.facts, cmp_lt(ln, const(2))), implied(p.facts, cmp_lt(ln, const(3)))
        if plain is None or (plain is False and (l2 is None or (l2 is False and l3 is None))):
            continue
        r = a if plain else mk("idx", a, const(0))
        q = const(1) if plain or l2 else mk("idx", a, const(1))
        prio = mk("sym", "arg:request_priority") if plain or l2 or l3 else mk("idx", a, const(2))
        qs = [q] + [e.value for e in p.events if e.kind == "setitem" and e.args and e.args[0] is r]
        ctx.count("preemptive request paths")
        C = A(r, "_claimers")
        av0s = [A(A(r, "available_quantity"), "_tally"), tm.sub(A(r, "_capacity"), A(r, "_claimed_quantity"))]
        tot = []
        for i, e in enumerate(bumps):
            c = e.base
            ctx.check(e.args.get(rel.posargs[1]) is r, "bumped-from-this-resource", fi.qual, "a claimer is bumped from another resource", ctx.where(fi, e.line), pathstr(p, 14))
            ctx.check(e.args.get(rel.posargs[2], NONE) is NONE, "bumped-completely", fi.qual, "only a part of the claim is bumped", ctx.where(fi, e.line), pathstr(p, 14))
            by = e.args.get("bumped_by")
            ctx.check(by is None or by is SELF, "bumped-by-requester", fi.qual, "a bump that is treated as an ordinary release offers the quantity to others first", ctx.where(fi, e.line), pathstr(p, 14)) if by is not None else None
            ctx.check(by is SELF, "bumped-by-requester", fi.qual, "the quantity that is bumped is offered to others before the requester gets it", ctx.where(fi, e.line), pathstr(p, 14))
            cp = mk("attr", mk("idx", A(c, "_qmembers"), C), "priority")
            ctx.check(implied(p.facts, cmp_lt(prio, cp)) is True, "bump-lower-priority-only", fi.qual, f"a claimer is bumped that does not have a lower priority ({prio!r} versus {cp!r})", ctx.where(fi, e.line), pathstr(p, 14))
            ctx.check(c.op == "elem" and c.a[1] == -1 - i, "bump-lowest-first", fi.qual, f"the claimer bumped is {c!r}: not the one with the lowest priority", ctx.where(fi, e.line), pathstr(p, 14))
            act = [x for x in p.events if x.kind == "call" and x.name == "Component.activate" and x.base is c and x.seq > e.seq]
            ctx.check(bool(act), "bumped-is-activated", fi.qual, "a bumped claimer is not activated", ctx.where(fi, e.line), pathstr(p, 14))
            tot.append(c)
            ctx.count("bumps")
        # needed: what was available before the last bump was not enough; sufficient: with it, it is
        amounts = []
        acc_opts = []
        for av in av0s:
            seq = [av]
            for c in tot:
                seq.append(tm.add(seq[-1], mk("idx", A(c, "_claims"), r)))
            acc_opts.append(seq)
        if bumps:
            need = any(implied(p.facts, cmp_lt(seq[-2], x)) is True for seq in acc_opts for x in qs)
            suff = any(implied(p.facts, cmp_lt(seq[-1], x)) is False for seq in acc_opts for x in qs)
            ctx.check(need, "bump-only-when-needed", fi.qual, "a claimer is bumped although enough is available without it", ctx.where(fi, bumps[-1].line), pathstr(p, 16))
            ctx.check(suff, "bump-only-when-it-helps", fi.qual, "a claimer is bumped although the request cannot be honored even then", ctx.where(fi, bumps[-1].line), pathstr(p, 16))
            tr = [e for e in p.events if e.kind == "try" and e.base is SELF]
            ctx.check(bool(tr) and tr[0].seq > bumps[-1].seq, "bump-before-try", fi.qual, "the request is tried before the claimers are bumped", ctx.where(fi), pathstr(p, 14))
        else:
            # no bump: enough, nobody to bump, the lowest is not lower, or even with those it is not enough
            seqs = acc_opts
            enough = any(implied(p.facts, cmp_lt(seq[0], x)) is False for seq in seqs for x in qs)
            nobody = implied(p.facts, cmp_lt(A(C, "_length"), const(1))) is True
            c0 = qelem(C, -1)
            notlower = implied(p.facts, cmp_lt(prio, mk("attr", mk("idx", A(c0, "_qmembers"), C), "priority"))) is False
            def lowered(k):
                return mk("attr", mk("idx", A(qelem(C, -1 - k), "_qmembers"), C), "priority")
            notenough = False
            for k in range(1, 4):
                s = [av0s[0], av0s[1]]
                for j in range(k):
                    s = [tm.add(x, mk("idx", A(qelem(C, -1 - j), "_claims"), r)) for x in s]
                if any(implied(p.facts, cmp_lt(x, y)) is True for x in s for y in qs) and (implied(p.facts, cmp_lt(A(C, "_length"), const(k + 1))) is True or implied(p.facts, cmp_lt(prio, lowered(k))) is False):
                    notenough = True
            ctx.check(enough or nobody or notlower or notenough, "bump-when-possible", fi.qual, "a request is not given what lower priority claimers hold", ctx.where(fi), pathstr(p, 16))
    ctx.floor("bumps", 6)
    ctx.floor("preemptive request paths", 50)
    fi = m.need("Component.activate")


# ---------------------------------------------------------------- C13 release at the end
@prop("C13")
def c13(ctx):
    m = ctx.m
    rel = ctx.roles.release1
    subj = [(m.need("Component.cancel"), SELF, "cancelled")]
    tf = ctx.roles.terminate
    if tf:
        subj.append((tf, mk("sym", "arg:" + tf.posargs[1]), "ended"))
    for fi, c, what in subj:
        d = A(c, "_claims")
        for y in (False, True):
            for p in ctx.paths(fi, key=f"end{y}", yieldless=y, entry=fi, loop_k=2, extra_handlers={rel.qual: h_call}, param_types={fi.posargs[-1]: "Component"}):
                ts = [e for e in p.events if e.kind == "tally" and is_attr(e.base, "status", c)]
                if p.raised or not ts:
                    continue
                calls = [e for e in p.events if e.kind == "call" and e.name in (rel.qual, "Component.release") and e.base is c]
                n = nreq(p, d)
                ctx.count("ends of a process")
                if n is None:
                    whole = [e for e in calls if e.name == "Component.release"]
                    ctx.check(bool(whole), "claims-released-at-end", fi.qual, f"the claims of a component that is {what} are not released", ctx.where(fi), pathstr(p))
                    continue
                rs = {e.args.get(rel.posargs[1]) for e in calls if e.args.get(rel.posargs[2], NONE) is NONE}
                ctx.check(len(rs) >= n, "claims-released-at-end", fi.qual, f"only {len(rs)} of {n} claims of a component that is {what} are released completely", ctx.where(fi), pathstr(p))
                for e in calls:
                    ctx.check(e.args.get("bumped_by", NONE) is NONE, "claims-released-at-end", fi.qual, "the claims released at the end are not offered to the requesters", ctx.where(fi, e.line), pathstr(p))
                sw = [e for e in p.events if e.kind == "switch"]
                ctx.check(not sw or all(e.seq < sw[0].seq for e in calls), "claims-released-at-end", fi.qual, "the claims are released only after control is given away", ctx.where(fi), pathstr(p))
    ctx.floor("ends of a process", 6)
    # every way a process ends goes through the termination function
    ended_is_terminated(ctx)
