"""Specifications of times and durations: numbers, distributions, dates and texts."""
import re
from lib.core import *
from lib.engine import Raise, Ev
from . import prop
from .sched import TIME_SPEC, run_api
from . import generator as gen

SPEC = mk("sym", "the specification")


def h_float(eng, st, recv, pos, kw, node):
    bad = st.clone()
    st = eng.event(st, Ev("float", None, "float", value=pos[0]), node)
    bad = eng.event(bad, Ev("nofloat", None, "float", value=pos[0]), node)
    return [(st, mk("pure", "float", *pos)), (bad, Raise("ValueError", node.lineno, st.fn))]


def raw(t, x):
    """x occurs in t other than converted"""
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if isinstance(y, (tuple, list, frozenset)):
            todo += list(y)
            continue
        if not isinstance(y, type(NONE)) or id(y) in seen:
            continue
        seen.add(id(y))
        if y.op == "pure" and y.a[0] in ("to_time", "to_duration", "callable"):
            continue
        todo += [z for z in y.a if not isinstance(z, str)]
    return False


def fact(p, text):
    for f, v in p.facts.items():
        if repr(f) == text or repr(f) == f"bool({text})":
            return v
    return None


def specs(ctx, kind):
    m = ctx.m
    fi = m.need("Environment.spec_to_" + kind)
    where = ctx.where(fi)
    h = {"float": h_float}
    for n in ("datetime_to_t", "timedelta_to_duration", "dateutil_parse"):
        h[m.need("Environment." + n).qual] = h_pure(n)
    P = lambda x: mk("pure", "dateutil_parse", x)
    for p in ctx.paths(fi, key="spec", args={fi.posargs[1]: SPEC}, cls="Environment", handlers=h, yieldless=None):
        dist = fact(p, f"callable({SPEC!r})")
        calls = [e for e in p.events if e.kind == "ucall"]
        ctx.count("ways to specify a " + kind)
        if dist is None and fact(p, f"{SPEC!r} == None") is not True:
            nums = [f for f, v in p.facts.items() if v and f"isinstance({SPEC!r}" in repr(f)]
            if not nums:
                ctx.fail("distribution-sampled", fi.qual, "it is not looked whether the specification can be called", where, pathstr(p))
                continue
        ctx.check(len(calls) == (1 if dist else 0), "distribution-sampled", fi.qual, f"the specification is called {len(calls)} times", where, pathstr(p))
        vals = {e.value for e in p.events if e.kind in ("float", "nofloat")}
        r = p.outcome[1] if p.outcome[0] == "return" else None
        x = SPEC
        if dist:
            cand = [t for t in ([r] if r is not None else []) + list(vals) for t in subterms(t) if t.op != "sym" and repr(t) == f"{SPEC!r}()"]
            cand += [t for f in p.facts for t in subterms(f) if repr(t) == f"{SPEC!r}()"]
            if not cand:
                ctx.fail("distribution-sampled", fi.qual, f"gives {p.outcome!r}, which is not the sample", where, pathstr(p))
                continue
            x = cand[0]
        none = fact(p, f"{x!r} == None")
        if none:
            ctx.check(r is NONE, "specification", fi.qual, f"no specification gives {p.outcome!r}", where, pathstr(p))
            continue
        no = [e for e in p.events if e.kind == "nofloat" and e.value is x]
        if r is not None and (r is mk("pure", "float", x) or r is x and any(v and f"isinstance({x!r}" in repr(f) and ("int" in repr(f)[len(repr(x)):] or "float" in repr(f)) for f, v in p.facts.items())):
            ctx.count("numbers")
            continue
        text = [(f, v) for f, v in p.facts.items() if f"isinstance({x!r}, str)" in repr(f)]
        istext = text[0][1] if text else None
        d0 = [v for f, v in p.facts.items() if "_datetime0" in repr(f)]
        if not no and not (istext is False):
            ctx.fail("specification", fi.qual, f"a number gives {p.outcome!r}", where, pathstr(p))
            continue
        if d0 and d0[0] is False or d0 and "None" in repr([f for f in p.facts if "_datetime0" in repr(f)][0]) and p.raised:
            ctx.check(p.raised and p.outcome[1].name == "ValueError", "specification", fi.qual, f"without datetime0, something that is not a number gives {p.outcome!r}", where, pathstr(p))
            continue
        if p.raised:
            ctx.check(not d0, "specification", fi.qual, f"a {'text' if istext else 'date'} is refused although there is a datetime0", where, pathstr(p))
            continue
        if kind == "time":
            want = r is mk("pure", "datetime_to_t", P(x) if istext else x)
        else:
            want = r is mk("pure", "timedelta_to_duration", x)
            if istext:
                want = re.fullmatch(re.escape(f"timedelta_to_duration(({P(x)!r} - ") + r"dateutil_parse\('0+(:0+)*'\)\)\)", repr(r)) is not None
        ctx.count("texts and dates")
        ctx.check(want, "specification", fi.qual, f"a {'text' if istext else 'date or timedelta'} gives {r!r}", where, pathstr(p))


@prop("C46")
def c46(ctx):
    for kind in ("time", "duration"):
        specs(ctx, kind)
        ctx.floor("ways to specify a " + kind, 6)
    ctx.floor("texts and dates", 6)
    for q, (absn, reln, _) in TIME_SPEC.items():
        fi, ps = run_api(ctx, q, False)
        for p in ps:
            if p.raised:
                continue
            conversions(ctx, p, fi, {mk("sym", "arg:" + absn): "to_time", mk("sym", "arg:" + reln): "to_duration"})
            for e in p.events:
                if e.kind in ("write", "push") and e.value is not None and e.name in ("_scheduled_time", "_remaining_duration", "_event_list", None, "push"):
                    for n in (absn, reln):
                        ctx.check(not raw(e.value, mk("sym", "arg:" + n)), "converted", q, f"{n} is used as it is given: {e.value!r}", ctx.where(fi, e.line), pathstr(p))
    ctx.floor("specifications converted", 20)
    fi = ctx.m.need("Environment.reset_now")
    for p in ctx.paths(fi, key="get", entry=fi):
        if not p.raised:
            conversions(ctx, p, fi, {mk("sym", "arg:new_now"): "to_time"})
            for e in p.events:
                if e.kind == "write" and e.name == "_offset":
                    ctx.check(not raw(e.value, mk("sym", "arg:new_now")), "converted", fi.qual, f"new_now is used as it is given: {e.value!r}", ctx.where(fi, e.line), pathstr(p))
    S = gen.S
    extra = {"Environment.spec_to_time": h_conv("to_time"), "Environment.spec_to_duration": h_conv("to_duration")}
    for kind, given in (("iat", ("at", "till")), ("iat", ("delay", "duration")), ("iat", ("at", "duration")), ("iat", ("delay", "till")), ("spread", ("at", "duration")), ("spread", ("delay", "till")), ("moments", ())):
        a = gen.defaults()
        a.update({n: S(n) for n in given})
        if kind == "iat":
            a.update(iat=S("iat"), number=S("number"))
        elif kind == "spread":
            a.update(number=const(2))
        else:
            a.update(moments=mk("list", S("m0"), S("m1")))
        fi, ps, _ = gen.construct(ctx, a, 2 if kind == "spread" else 0, extra)
        wants = {S(n): "to_time" if n in ("at", "till") else "to_duration" for n in given}
        if kind == "moments":
            wants = {S("m0"): "to_time", S("m1"): "to_time"}
        for p in ps:
            if p.raised or gen.called(p, S("component_class"), False) is True:
                continue
            conversions(ctx, p, fi, wants)
            ctx.count("generators")
            used = [(n, v) for (b, n), v in p.heap.items() if b is SELF and not n.startswith("#")]
            for e in p.events:
                if e.kind == "start":
                    used += list(e.args.items())
                if e.kind == "draw" and e.value is not None:
                    used.append(("bounds", e.value))
            for n, v in used:
                items = p.heap.get((v, "#items"), v)
                for x in wants:
                    ctx.check(not raw(items, x), "converted", fi.qual, f"{x!r} is used as it is given ({n})".replace("arg:", ""), ctx.where(fi), pathstr(p))
    ctx.floor("generators", 10)


def conversions(ctx, p, fi, wants):
    for x, kind in wants.items():
        cs = [e for e in p.events if e.kind == "conv" and e.value is x]
        ctx.count("specifications converted", len(cs))
        n = repr(x).replace("arg:", "")
        ctx.check(all(e.name == kind for e in cs), "converted", fi.qual, f"{n} is converted as a {'duration' if kind == 'to_time' else 'time'}", ctx.where(fi), pathstr(p))
        ctx.check(len(cs) <= 1, "sampled-once", fi.qual, f"{n} is converted {len(cs)} times: a distribution is sampled more than once", ctx.where(fi), pathstr(p))
