"""The monitors that belong to an object are created, listed, switched and reset together.

The set of an object's own monitors is the documented one (Queue: length, length_of_stay; Resource and State: these of their queues,
plus their own); each is found as the object on which Monitor.monitor / Monitor.reset acts, through any number of helpers."""
import ast
from lib.core import *
from . import prop


def A(o, n):
    return mk("attr", o, n)

S = SELF


def _q(q):
    return [A(A(S, q), "length"), A(A(S, q), "length_of_stay")]


def h_dotcall(eng, st, recv, pos, kw, node):
    st = eng.event(st, Ev("dotcall", recv, node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "?", args={**{i: a for i, a in enumerate(pos)}, **kw}), node)
    return [(st, NONE)]


def own_monitors():
    return {
        "Queue": [A(S, "length"), A(S, "length_of_stay")],
        "Resource": _q("_requesters") + _q("_claimers") + [A(S, x) for x in ("capacity", "available_quantity", "claimed_quantity", "occupancy")],
        "State": _q("_waiters") + [A(S, "value")],
        "Component": [A(S, "status"), A(S, "mode")],
    }


def ctor_args(ctx, cls, e):
    """arguments of a creation, by parameter name"""
    fi = ctx.m.method(cls, "__init__")
    out = {}
    names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args][1:] if fi else []
    # constructors that hand everything on (*args, **kwargs)
    extra = []
    if fi is not None and fi.node.args.vararg is not None:
        for b in ctx.m.mro(cls)[1:]:
            k = ctx.m.classes.get(b)
            if k and "__init__" in k.methods:
                extra = [a.arg for a in k.methods["__init__"].node.args.args][1:]
                break
    for k, v in (e.args or {}).items():
        if isinstance(k, int):
            if k < len(names):
                out[names[k]] = v
            elif k - len(names) < len(extra):
                out[extra[k - len(names)]] = v
        else:
            out[k] = v
    return out


@prop("C27")
def c27(ctx):
    m = ctx.m
    H = {"Monitor.reset": h_call, "Monitor.monitor": h_call}
    own = own_monitors()
    for cls, mons in own.items():
        for name, target, params in (("reset_monitors", "Monitor.reset", ("monitor", "stats_only")), ("monitor", "Monitor.monitor", ("value",)), ("all_monitors", None, ())):
            fi = m.method(cls, name)
            if fi is None:
                if cls != "Component":
                    ctx.check(False, "operation-exists", f"{cls}.{name}", "is gone", ctx.where(m.need(cls + ".__init__")))
                continue
            for p in ctx.paths(fi, key="om", entry=fi, yieldless=False, extra_handlers=H):
                if p.raised:
                    continue
                if target is None:
                    v = p.outcome[1]
                    items = list(v.a) if v.op in ("tuple", "list") else None
                    if items is None and v.op == "new" and (v, "#items") in p.heap:
                        items = list(p.heap[(v, "#items")].a)
                    ctx.count("monitor lists")
                    ctx.check(items is not None and len(items) == len(mons) and all(any(x is y for x in items) for y in mons), "all-monitors-listed", fi.qual, f"lists {items!r}, {mons!r} required", ctx.where(fi), pathstr(p))
                    continue
                ev = [e for e in p.events if e.kind == "call" and e.name == target]
                for mo in mons:
                    es = [e for e in ev if e.base is mo]
                    ctx.count("monitors switched or reset")
                    ctx.check(len(es) >= 1, "applies-to-all-monitors", fi.qual, f"{mo!r} is left out", ctx.where(fi), pathstr(p))
                    for e in es:
                        for q in params:
                            ctx.check(e.args.get(q) is mk("sym", "arg:" + q), "arguments-passed", fi.qual, f"{q} given to {mo!r} is {e.args.get(q)!r}", ctx.where(fi, e.line), pathstr(p))
                for e in ev:
                    ctx.check(any(e.base is mo for mo in mons), "only-own-monitors", fi.qual, f"acts on {e.base!r}", ctx.where(fi, e.line), pathstr(p))
    ctx.floor("monitors switched or reset", 28)
    ctx.floor("monitor lists", 3)
    # creation
    want = {
        "Queue": {"length": "Monitor", "length_of_stay": "Monitor", "capacity": "Monitor", "available_quantity": "Monitor"},
        "Resource": {"_requesters": "Queue", "_claimers": "Queue", "capacity": "Monitor", "available_quantity": "Monitor", "claimed_quantity": "Monitor", "occupancy": "Monitor"},
        "State": {"_waiters": "Queue", "value": "Monitor"},
    }
    mon = mk("sym", "arg:monitor")
    for cls, parts in want.items():
        fi = m.need(cls + ".__init__")
        for p in ctx.paths(fi, key="omnew", yieldless=False, entry=fi, queues=False, extra_handlers={cls + ".setup": h_skip}):
            if p.raised:
                continue
            for attr, kind in parts.items():
                w = [e for e in p.events if e.kind == "write" and e.name == attr and e.base is S]
                o = w[-1].value if w else None
                new = [e for e in p.events if e.kind == "new" and e.base is o]
                if not ctx.check(bool(new), "monitor-created", fi.qual, f"{attr} is not a new {kind}", ctx.where(fi), pathstr(p)):
                    continue
                a = ctor_args(ctx, new[-1].name, new[-1])
                sw = [e for e in p.events if e.kind == "call" and e.name in ("Monitor.monitor", "Queue.monitor") and e.base is o]
                ctx.count("monitors created")
                ctx.check(a.get("monitor") is mon or any(e.args.get("value") is mon for e in sw), "monitor-argument", fi.qual, f"{attr} is created with monitor={a.get('monitor')!r}, so the monitor argument of {cls} does not apply to it", ctx.where(fi, new[-1].line), pathstr(p))
                if attr in ("capacity", "value") or attr == "mode":
                    par = a.get("parent")
                    pw = [e.value for e in p.events if e.kind == "write" and e.name == "parent" and e.base is o]
                    ctx.check((pw[-1] if pw else par) is S, "monitor-belongs", fi.qual, f"{attr} has {(pw[-1] if pw else par)!r} as its owner, so its value cannot be set", ctx.where(fi, new[-1].line), pathstr(p))
    fi = m.method("Store", "__init__")
    if fi is not None and fi.cls == "Store" or fi is not None and fi.qual == "Store.__init__":
        for p in ctx.paths(fi, key="omnew", yieldless=False, entry=fi, queues=False, extra_handlers={"Queue.__init__": h_call, "Store.setup": h_skip}):
            if p.raised:
                continue
            es = [e for e in p.events if e.kind == "call" and e.name == "Queue.__init__" and e.base is S]
            ctx.count("monitors created")
            ctx.check(bool(es) and es[-1].args.get("monitor") is mon and es[-1].args.get("capacity") is mk("sym", "arg:capacity"), "monitor-argument", fi.qual, f"the store is created with {es[-1].args if es else None!r}", ctx.where(fi), pathstr(p))
    ctx.floor("monitors created", 13)
    # values set through the monitor
    val = None
    for cls, setter, getter in (("_CapacityMonitor", "set_capacity", None), ("_ModeMonitor", "set_mode", None), ("_StateMonitor", "set", "get")):
        k = m.classes.get(cls)
        if k is None:
            continue
        sf = m.setter(cls, "value")
        if not ctx.check(sf is not None, "value-settable", cls + ".value", "cannot be assigned to any more", ctx.where(m.need("Monitor.__init__"))):
            continue
        owners = {"_CapacityMonitor": ("Queue", "Resource", "Store"), "_ModeMonitor": ("Component",), "_StateMonitor": ("State",)}[cls]
        val = mk("sym", "arg:" + sf.posargs[1])
        names = {f"{o}.{setter}" for o in owners}
        hs = {n: h_call for n in names}
        for p in ctx.paths(sf, key="omset", yieldless=False, entry=sf, extra_handlers={**hs, "." + setter: h_dotcall}):
            if p.raised:
                ctx.check(False, "value-settable", sf.qual, "assigning a value raises an error", ctx.where(sf), pathstr(p))
                continue
            es = [e for e in p.events if (e.kind == "call" and e.name in names or e.kind == "dotcall" and e.name == setter or e.kind == "callback" and e.name == setter)]
            ok = len(es) == 1 and es[0].base is A(S, "parent") and any(x is val for x in (es[0].args or {}).values())
            ctx.count("values set through a monitor")
            ctx.check(ok, "value-set-like-method", sf.qual, f"assigning a value does not do {setter}: {[(e.base, e.name, e.args) for e in es]!r}", ctx.where(sf), pathstr(p))
    ctx.floor("values set through a monitor", 3)
    # assigning to the status is refused
    sf = m.setter("_StatusMonitor", "value") if "_StatusMonitor" in m.classes else None
    if sf is not None:
        for p in ctx.paths(sf, key="omset", yieldless=False, entry=sf):
            ctx.check(p.raised, "status-not-settable", sf.qual, "the status can be assigned to", ctx.where(sf), pathstr(p))
