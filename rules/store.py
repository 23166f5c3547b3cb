"""Stores: items are handed over exactly once, to the first requester that can have them.

Like the queues, two stores and their (internal) queues of requesters are materialised in the abstract heap; filters,
keys, priorities and capacities stay symbolic. Each operation is followed on all paths, including the chain of
hand-overs it sets off, and the final heap is compared with the requirements below.
"""
from lib.core import *
from lib.engine import and_facts
from . import prop
from .resource import A, wr
from .queue import materialise, outsider, qdict, links, node_of, comp, ME, Order

S, S2 = mk("new", "Store", "S"), mk("new", "Store", "S2")
STORES = (S, S2)
FROM = {s: mk("new", "Queue", f"{s.a[1]}.from_store_requesters") for s in STORES}
TO = {s: mk("new", "Queue", f"{s.a[1]}.to_store_requesters") for s in STORES}
ITEM = mk("new", "Component", "item")
BOTH = mk("new", "list", "both stores")
DELETED = mk("sym", "<deleted>")


def req(i):
    return mk("new", "Component", f"r{i}")


def own_item(r):
    return mk("new", "Component", f"item of {r.a[1]}")


def ends(q):
    return mk("new", "Qmember", (q.a[1], "head")), mk("new", "Qmember", (q.a[1], "tail"))


def cap(s):
    return A(A(s, "capacity"), "_tally")


def seq(p, q):
    h, t = ends(q)
    ns, err = links(p, q, h, t)
    return ns, [p.heap.get((n, "component")) for n in ns], err


class World:
    def __init__(self, items=(), items2=(), froms=(), tos=()):
        self.items = {S: list(items), S2: list(items2)}
        self.froms, self.tos = list(froms), list(tos)

    def pre(self, extra=None):
        def f(eng, st):
            h = st.heap
            st.uniq = 100
            allq = list(STORES) + list(FROM.values()) + list(TO.values())
            mine = [own_item(r) for r in self.tos]
            for c in self.items[S] + self.items[S2] + self.froms + self.tos + mine + [ME, ITEM]:
                for q in allq:
                    outsider(st, c, q)
            lay = [(s, self.items[s], False) for s in STORES] + [(FROM[s], self.froms, True) for s in STORES] + [(TO[s], self.tos, True) for s in STORES]
            for q, cs, internal in lay:
                hd, tl = ends(q)
                materialise(st, len(cs), q=q, tag=q.a[1], head=hd, tail=tl, cs=cs)
                h[(q, "_isinternal")] = TRUE if internal else FALSE
                if internal:
                    h[(A(q, "capacity"), "_tally")] = const(10**6)
                for c in cs:
                    h.pop((qdict(c), ("in", q)), None)
            for s in STORES:
                h[(s, "_from_store_requesters")] = FROM[s]
                h[(s, "_to_store_requesters")] = TO[s]
                h[(A(s, "available_quantity"), "_tally")] = tm.sub(cap(s), const(len(self.items[s])))
            h[(BOTH, "#items")] = mk("list", S, S2)
            h[(ENV, "_current_component")] = ME
            none = mk("list")
            for r in self.froms + self.tos + [ME]:
                h[(r, "_from_stores")] = mk("list", S, S2) if r in self.froms else none
                h[(r, "_to_stores")] = mk("list", S, S2) if r in self.tos else none
                h[(A(r, "status"), "_tally")] = const("current" if r is ME else "requesting")
            facts = [(cmp_eq(NOW, INF), False), (cmp_lt(INF, NOW), False)]
            for r in self.tos:
                h[(r, "_to_store_item")] = own_item(r)
                facts.append((cmp_eq(A(r, "_to_store_priority"), NONE), False))
            for t in ("priority", "request_priority"):
                facts.append((cmp_eq(mk("sym", "arg:" + t), NONE), False))
            # the length is at most the capacity
            out = st
            for s in STORES:
                facts.append((cmp_lt(cap(s), const(len(self.items[s]))), False))
            for a, v in facts + list(extra or ()):
                if a.op == "not":
                    a, v = a.a[0], not v
                if a.op == "const":
                    continue
                out = and_facts(out, a, v)
                if out is None:
                    return []
            return [out]

        return f


def fractional(p):
    """the path needs a capacity between two integers"""
    lo, hi = {}, {}
    for f, v in p.facts.items():
        if f.op != "cmp" or f.a[0] not in ("lt", "le"):
            continue
        c, parts = tm.lin_parts(f.a[1])
        it = list(parts.items())
        if len(it) != 1 or abs(it[0][1]) != 1:
            continue
        t, sg = it[0]
        b = -f.a[2] - c if not isinstance(f.a[2], tm.T) else None  # part + constant < 0
        if b is None:
            continue
        strict = f.a[0] == "lt"
        upper = (sg == 1) == v
        b = b if sg == 1 else -b
        if not v:
            strict = not strict
        d = hi if upper else lo
        k = (b, strict)
        if t not in d or (upper and (b, not strict) < (d[t][0], not d[t][1])) or (not upper and (b, strict) > d[t]):
            d[t] = k
    for t in lo:
        if t in hi:
            (l, ls), (h, hs) = lo[t], hi[t]
            first = l.__floor__() + 1 if ls or l != l.__floor__() else l
            if first > h or (first == h and hs):
                return True
    return False


def passes(p, r, item, flt=None):
    """what the path assumes about the filter of r for this item (True, False, None = not evaluated)"""
    f = flt if flt is not None else A(r, "_from_store_filter")
    for a, v in p.facts.items():
        if a.op == "cmp" and a.a[0] == "truthy" and isinstance(a.a[1], tm.T):
            t = a.a[1]
            if t.op == "app" and t.a[0] is f and item in _args(t):
                return v
    return None


def _args(t):
    out = []
    for a in t.a[1:]:
        if isinstance(a, tm.T):
            out.append(a)
        elif isinstance(a, tuple):
            out += [x for x in a if isinstance(x, tm.T)]
    return out


def scheduled_now(ctx, p, c, api, label, fi, value=None):
    """c continues at the current time, with the value given"""
    evs = [e for e in p.events if e.base is c or e.base is A(c, "status") or (e.kind == "push" and e.value.op == "tuple" and c in e.value.a)]
    st = [e.value for e in evs if e.kind == "tally"]
    ctx.check(bool(st) and st[-1] is const("scheduled"), "honored-is-scheduled", api, f"({label}) whose request is honored gets status {st[-1:]!r}", ctx.where(fi), pathstr(p))
    pu = [e for e in evs if e.kind == "push"]
    if ctx.check(len(pu) == 1 and pu[0].value.a[0] is NOW, "honored-continues-now", api, f"({label}) whose request is honored is not scheduled (once) for the current time", ctx.where(fi), pathstr(p)):
        rm = [i for i, e in enumerate(evs) if e.kind == "remove"]
        ctx.check(bool(rm) and rm[0] < evs.index(pu[0]), "time-out-cancelled", api, f"({label}) whose request is honored keeps its time-out event", ctx.where(fi), pathstr(p))
        v = pu[0].value.a
        ctx.check(len(v) > 3 and tm.is_num_const(v[1]) and tm.num_value(v[1]) == 0 and all(k > 0 for k in tm.lin_parts(v[2])[1].values()), "honored-in-turn", api, f"({label}) whose request is honored is scheduled with priority {v[1]!r} and sequence {v[2]!r}", ctx.where(fi), pathstr(p))
        if value is not None:
            ctx.check(value in pu[0].value.a[4:], "value-of-from_store", api, f"({label}) does not get the item as the value of its from_store call", ctx.where(fi), pathstr(p))


def judge(ctx, p, w, api, label, fi, arriving=(), leaving=(), fresh=(), rescanned=(), to_checked=(), skip_me=True):
    """requirements on the heap at the end of a path"""
    h = p.heap
    where = ctx.where(fi)
    ps = pathstr(p, 14)
    members = {}
    for s in STORES:
        ns, sq, err = seq(p, s)
        if not ctx.check(err is None, "store-links", api, f"({label}) {err}", where, ps):
            return
        members[s] = sq
        ctx.check(h.get((s, "_length")) is const(len(ns)), "store-length", api, f"({label}) leaves a wrong length", where, ps)
    fq, tq = {}, {}
    for s in STORES:
        for d, q in ((fq, FROM[s]), (tq, TO[s])):
            ns, sq, err = seq(p, q)
            if not ctx.check(err is None, "requester-links", api, f"({label}) {err}", where, ps):
                return
            d[s] = sq
    given, placed = {}, {}
    # --- requesters of from_store
    for i, r in enumerate(w.froms):
        inq = [s for s in STORES if r in fq[s]]
        if len(inq) == 2:
            ctx.check(not any(e.kind in ("push", "remove") and (e.base is r or r in getattr(e.value, "a", ())) for e in p.events), "not-honored-is-untouched", api, f"({label}) a requester that gets nothing is rescheduled", where, ps)
            lst = h.get((r, "_from_stores"))
            ctx.check(lst is mk("list", S, S2), "not-honored-is-untouched", api, f"({label}) a requester that keeps waiting forgets where", where, ps)
            continue
        if not ctx.check(not inq, "honored-leaves-all", api, f"({label}) a requester whose from_store is honored stays in the requesters of {inq!r}", where, ps):
            continue
        item = h.get((r, "_from_store_item"))
        ctx.count("items handed over")
        ctx.check(item is not None and item is not NONE, "honored-gets-item", api, f"({label}) a requester leaves the queue without an item", where, ps)
        ctx.check(item not in given, "one-requester-per-item", api, f"({label}) {item!r} is given to two requesters", where, ps)
        given[item] = r
        ctx.check(passes(p, r, item) is True, "filter-respected", api, f"({label}) a requester gets {item!r}, for which its filter was not found to be true", where, ps)
        ctx.check(empty(p, h.get((r, "_from_stores"))), "honored-leaves-all", api, f"({label}) a requester whose from_store is honored is still marked as requesting", where, ps)
        src = next((s for s in STORES if item in w.items[s] or item in arriving.get(s, ()) ), None) if arriving else next((s for s in STORES if item in w.items[s]), None)
        ctx.check(src is None or h.get((r, "_from_store_store")) is src, "right-store-reported", api, f"({label}) from_store_store() is not the store the item came from", where, ps)
        scheduled_now(ctx, p, r, api, label, fi, item)
        # earlier requesters that keep waiting did not want it
        for r2 in w.froms[:i]:
            if len([s for s in STORES if r2 in fq[s]]) == 2:
                ctx.check(passes(p, r2, item) is False, "in-order-of-requesters", api, f"({label}) {item!r} goes to a requester although an earlier one may want it", where, ps)
    # --- requesters of to_store
    waiting = False
    for r in w.tos:
        inq = [s for s in STORES if r in tq[s]]
        if len(inq) == 2:
            waiting = True
            ctx.check(h.get((r, "_to_store_item")) is own_item(r) and h.get((r, "_to_stores")) is mk("list", S, S2), "not-honored-is-untouched", api, f"({label}) a requester that keeps waiting loses its item", where, ps)
            continue
        if not ctx.check(not inq, "honored-leaves-all", api, f"({label}) a requester whose to_store is honored stays in the requesters of {inq!r}", where, ps):
            continue
        ctx.count("items put in a store")
        ctx.check(not waiting, "in-order-of-requesters", api, f"({label}) a to_store is honored although an earlier requester waits for the same store", where, ps)
        it = own_item(r)
        dst = [s for s in STORES if it in members[s]]
        if it in given:
            dst = [h.get((given[it], "_from_store_store"))]
        ctx.check(len(dst) == 1, "item-enters-once", api, f"({label}) the item of an honored to_store is in {len(dst)} stores", where, ps)
        if len(dst) == 1:
            placed[it] = dst[0]
            ctx.check(h.get((r, "_to_store_store")) is dst[0], "right-store-reported", api, f"({label}) to_store_store() is not the store of the item", where, ps)
            n = node_of(p, it, dst[0])
            if it in members[dst[0]] and n is not None:
                ctx.check(h.get((n, "priority")) is A(r, "_to_store_priority"), "priority-in-store", api, f"({label}) the item enters the store with priority {h.get((n, 'priority'))!r}", where, ps)
        ctx.check(empty(p, h.get((r, "_to_stores"))), "honored-leaves-all", api, f"({label}) a requester whose to_store is honored is still marked as requesting", where, ps)
        scheduled_now(ctx, p, r, api, label, fi)
    # --- conservation
    for s in STORES:
        for x in w.items[s] + list(arriving.get(s, ()) if arriving else ()):
            n = sum(x in members[z] for z in STORES) + (x in given)
            want = 0 if x in leaving else 1
            if x in leaving and x in given:
                want = 1
            ctx.check(n == want, "items-conserved", api, f"({label}) {x!r} ends up in {n} places", where, ps)
            if x in members[s] or x in given or x in leaving:
                continue
            ctx.fail("items-conserved", api, f"({label}) {x!r} moves to another store", where, ps)
        allowed = w.items[s] + list(arriving.get(s, ()) if arriving else ()) + [own_item(r) for r in w.tos]
        ctx.check(all(x in allowed for x in members[s]), "items-conserved", api, f"({label}) the store contains {members[s]!r}", where, ps)
    # --- nobody waits in vain
    for s in STORES:
        for x in members[s]:
            isnew = x not in w.items[s]
            if isnew or s in rescanned:
                for r in w.froms:
                    if r in fq[s]:
                        ctx.check(passes(p, r, x) is False, "no-waiting-in-vain", api, f"({label}) {x!r} is in the store while a requester that was not asked waits for it", where, ps)
                        ctx.count("requesters that keep waiting")
        if s in to_checked and any(r in tq[s] for r in w.tos):
            room = cmp_lt(const(len(members[s])), to_checked[s])
            full = implied(p.facts, room) is False
            ctx.check(full, "no-waiting-in-vain", api, f"({label}) a to_store keeps waiting although the store may have room ({len(members[s])} items)", where, ps)
            ctx.count("requesters that keep waiting")


def empty(p, t):
    if t is None:
        return False
    if t.op in ("list", "tuple"):
        return not t.a
    r = p.heap.get((t, "#items"))
    return r is not None and not r.a


def spaths(ctx, api, key, w, args, extra=None, **kw):
    fi = ctx.m.get(api)
    if fi is None:
        return None, []
    kw.setdefault("yieldless", False)
    ps = ctx.paths(fi, key="store" + key, args=args, pre=w.pre(extra), queues=False, loop_k=6, entry=fi, recurse=8, max_depth=24, max_paths=40000, extra_handlers={"Store.rescan": None}, **kw)
    return fi, [p for p in ps if not fractional(p)]


@prop("C20")
def c20(ctx):
    deep = ctx.tier != "quick"
    # an item enters a store in which components wait
    for items, froms in (([], [req(0), req(1)]), ([comp(0)], [req(0), req(1)])) + ((([comp(0), comp(1)], [req(0), req(1), req(2)]),) if deep else ()):
        w = World(items, froms=froms)
        for api, a in (("Component.enter", {"self": ME, "q": S}), ("Component.enter_sorted", {"self": ME, "q": S}), ("Queue.add", {"self": S, "component": ME}), ("Component.enter_at_head", {"self": ME, "q": S}), ("Queue.append", {"self": S, "component": ME})):
            fi, ps = spaths(ctx, api, f"in{len(items)}", w, a)
            for p in ps:
                label = f"item enters, {len(items)} items, {len(froms)} requesters"
                if p.raised:
                    full = implied(p.facts, cmp_lt(cap(S), const(len(items) + 1))) is True
                    ctx.check(p.outcome[1].name == "QueueFullError" and full, "enters", api, f"({label}) raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                    continue
                ctx.count("operations on a store")
                judge(ctx, p, w, api, label, fi, arriving={S: [ME]})
    # an item leaves a store while components wait to put something in it
    for items, tos, froms in (([comp(0)], [req(0), req(1)], []), ([comp(0), comp(1)], [req(0), req(1)], []), ([comp(0)], [req(0), req(1)], [req(8), req(9)])):
        w = World(items, tos=tos, froms=froms)
        x = items[-1]
        for api, a in (("Component.leave", {"self": x, "q": S}), ("Queue.remove", {"self": S, "component": x}), ("Queue.pop", {"self": S, "index": const(len(items) - 1)})):
            if froms and api != "Component.leave":
                continue
            fi, ps = spaths(ctx, api, f"out{len(items)}{len(froms)}", w, a, extra=[(cmp_lt(const(len(items)), cap(S)), False)])
            for p in ps:
                label = f"item leaves, {len(items)} items, {len(tos)} + {len(froms)} requesters"
                if p.raised:
                    ctx.fail("leaves", api, f"({label}) raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                    continue
                ctx.count("operations on a store")
                judge(ctx, p, w, api, label, fi, leaving=[x], to_checked={S: cap(S)})
    # rescan: all filters are tried again on all items
    for items, froms in (([comp(0)], [req(0), req(1)]), ([comp(0), comp(1)], [req(0), req(1)])):
        w = World(items, froms=froms)
        fi, ps = spaths(ctx, "Store.rescan", f"re{len(items)}", w, {"self": S})
        for p in ps:
            label = f"{len(items)} items, {len(froms)} requesters"
            if p.raised:
                ctx.fail("rescan", fi.qual, f"({label}) raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                continue
            ctx.count("operations on a store")
            judge(ctx, p, w, fi.qual, label, fi, rescanned=[S])
            first_item(ctx, p, w, fi, label)
    # another filter for one requester
    val = mk("sym", "arg:value")
    w = World([comp(0)], [comp(1)], froms=[req(0), req(1)])
    fi, ps = spaths(ctx, "Component.filter", "filter", w, {"self": req(1)})
    for p in ps:
        if p.raised:
            ctx.fail("filter", fi.qual, f"raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
            continue
        ctx.count("operations on a store")
        ctx.check(bool(wr(p, "_from_store_filter", req(1))) and wr(p, "_from_store_filter", req(1))[-1].value is val, "filter", fi.qual, "does not install the filter", ctx.where(fi), pathstr(p))
        ns, q0, err = seq(p, FROM[S])
        ns, q1, err2 = seq(p, FROM[S2])
        if not ctx.check(not err and not err2 and (req(1) in q0) == (req(1) in q1), "honored-leaves-all", fi.qual, "a requester is left in one of the queues of requesters", ctx.where(fi), pathstr(p)):
            continue
        y0, y1 = passes(p, req(1), comp(0), val), passes(p, req(1), comp(1), val)
        got = p.heap.get((req(1), "_from_store_item"))
        if req(1) in q0:
            s0, s1 = [seq(p, s)[1] for s in STORES]
            ctx.check((comp(0) not in s0 or y0 is False) and (comp(1) not in s1 or y1 is False), "no-waiting-in-vain", fi.qual, "a requester keeps waiting although its new filter was not tried on all items", ctx.where(fi), pathstr(p))
        else:
            ctx.check(got in (comp(0), comp(1)) and {comp(0): y0, comp(1): y1}[got] is True, "filter-respected", fi.qual, f"a requester gets {got!r}", ctx.where(fi), pathstr(p))
            scheduled_now(ctx, p, req(1), fi.qual, "new filter", fi, got)
    # capacity
    newcap = mk("sym", "arg:cap")
    for items, tos, froms in (([comp(0)], [req(0), req(1)], []), ([], [req(0), req(1)], []), ([comp(0)], [req(0)], [req(9)])):
        w = World(items, tos=tos, froms=froms)
        # who waits, waits for a full store
        fi, ps = spaths(ctx, "Store.set_capacity", f"cap{len(items)}{len(tos)}{len(froms)}", w, {"self": S}, extra=[(cmp_lt(const(len(items)), cap(S)), False)])
        for p in ps:
            label = f"{len(items)} items, {len(tos)} + {len(froms)} requesters"
            if p.raised:
                ctx.fail("set_capacity", fi.qual, f"({label}) raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                continue
            ctx.count("operations on a store")
            judge(ctx, p, w, fi.qual, label, fi, to_checked={} if implied(p.facts, cmp_lt(newcap, cap(S))) is True else {S: newcap})
    ctx.floor("operations on a store", 60)
    ctx.floor("items handed over", 30)
    ctx.floor("items put in a store", 20)
    ctx.floor("requesters that keep waiting", 20)
    from_store(ctx)
    to_store(ctx)
    new_store(ctx)


def first_item(ctx, p, w, fi, label):
    """the item that is given is the first in the store that passes"""
    for r in w.froms:
        x = p.heap.get((r, "_from_store_item"))
        if x in w.items[S]:
            for y in w.items[S][: w.items[S].index(x)]:
                taken = any(p.heap.get((r2, "_from_store_item")) is y for r2 in w.froms[: w.froms.index(r)])
                ctx.check(taken or passes(p, r, y) is False, "first-matching-item", fi.qual, f"({label}) {x!r} is given although {y!r} comes first", ctx.where(fi), pathstr(p))


NOFAIL = {"fail_at": NONE, "fail_delay": NONE, "mode": NONE}


def from_store(ctx):
    fi = ctx.m.need("Component.from_store")
    flt, key = mk("sym", "arg:filter"), mk("sym", "arg:key")
    rp = mk("sym", "arg:request_priority")
    for arg, items, items2, keyed in ((S, [comp(0), comp(1)], [], False), (BOTH, [comp(0)], [comp(1)], False), (BOTH, [comp(0), comp(1)], [comp(2)], True), (S, [comp(0), comp(1)], [], True), (S, [], [], False), (BOTH, [], [], True)):
        for yl in (False, True):
            w = World(items, items2)
            a = {"self": ME, "store": arg, **NOFAIL}
            if not keyed:
                a["key"] = NONE
            # who waits behind or before is decided by priority
            extra = [(cmp_eq(key, NONE), False), (truth(key), True)] if keyed else []
            _, ps = spaths(ctx, fi.qual, f"fs{arg.a[1]}{len(items)}{len(items2)}{keyed}{yl}", w, a, extra=extra, yieldless=yl)
            order = items + (items2 if arg is BOTH else [])
            for p in ps:
                label = f"{len(items)}+{len(items2)} items{', key' if keyed else ''}{', yieldless' if yl else ''}"
                if p.raised:
                    ctx.fail("from_store", fi.qual, f"({label}) raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                    continue
                ctx.count("from_store calls")
                h = p.heap
                yes = {x: passes(p, ME, x, flt) for x in order}
                stores = [S, S2] if arg is BOTH else [S]
                got = h.get((ME, "_from_store_item"))
                m = {s: seq(p, s)[1] for s in STORES}
                q = {s: seq(p, FROM[s])[1] for s in STORES}
                if got is None or got is NONE:
                    ctx.check(all(yes[x] is False for x in order), "no-waiting-in-vain", fi.qual, f"({label}) waits although an item was not refused by the filter", ctx.where(fi), pathstr(p))
                    ctx.check(all((q[s] == [ME]) == (s in stores) for s in STORES), "waits-in-all-stores", fi.qual, f"({label}) does not wait in (only) the stores given", ctx.where(fi), pathstr(p))
                    for s in stores:
                        n = node_of(p, ME, FROM[s])
                        ctx.check(n is not None and h.get((n, "priority")) is rp, "request-priority", fi.qual, f"({label}) the request does not get its priority", ctx.where(fi), pathstr(p))
                    l = h.get((ME, "_from_stores"))
                    ctx.check(l is not None and items_in(p, l) == stores, "waits-in-all-stores", fi.qual, f"({label}) remembers {l!r}", ctx.where(fi), pathstr(p))
                    ctx.check(h.get((ME, "_from_store_filter")) is flt, "filter-kept", fi.qual, f"({label}) does not keep the filter", ctx.where(fi), pathstr(p))
                    tl = [e.value for e in p.events if e.kind == "tally" and e.base is A(ME, "status")]
                    ctx.check(bool(tl) and const("requesting") in tl, "waits", fi.qual, f"({label}) gets status {tl!r}", ctx.where(fi), pathstr(p))
                    ctx.check(m == w.items, "items-conserved", fi.qual, f"({label}) takes an item and waits", ctx.where(fi), pathstr(p))
                    continue
                if not ctx.check(got in order and yes[got] is True, "filter-respected", fi.qual, f"({label}) gets {got!r}", ctx.where(fi), pathstr(p)):
                    continue
                src = S if got in items else S2
                ctx.check(h.get((ME, "_from_store_store")) is src, "right-store-reported", fi.qual, f"({label}) from_store_store() is not the store of the item", ctx.where(fi), pathstr(p))
                ctx.check(m == {s: [x for x in w.items[s] if x is not got] for s in STORES}, "items-conserved", fi.qual, f"({label}) leaves {m!r}", ctx.where(fi), pathstr(p))
                ctx.check(not any(q.values()), "honored-leaves-all", fi.qual, f"({label}) waits although it was honored", ctx.where(fi), pathstr(p))
                scheduled_now(ctx, p, ME, fi.qual, label, fi, got)
                if yl:
                    ctx.check(p.outcome[1] is got, "value-of-from_store", fi.qual, f"({label}) returns {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                i = order.index(got)
                if not keyed:
                    ctx.check(all(yes[x] is False for x in order[:i]), "first-matching-item", fi.qual, f"({label}) does not take the first item that passes", ctx.where(fi), pathstr(p))
                else:
                    o = Order(p.facts, [])
                    if any(f.op == "cmp" and f.a[0] == "eq" and v and NONE in f.a[1:] and any(x.op == "app" and x.a[0] is key for x in f.a[1:]) for f, v in p.facts.items()):
                        continue  # None is not a key
                    k = lambda x: next((t for f in p.facts for t in subterms(f) if t.op == "app" and t.a[0] is key and x in _args(t)), None)
                    for j, x in enumerate(order):
                        if x is got or yes[x] is False:
                            continue
                        if not ctx.check(yes[x] is True, "least-key", fi.qual, f"({label}) the filter is not tried on all items", ctx.where(fi), pathstr(p)):
                            continue
                        kx, kg = k(x), k(got)
                        ok = kx is not None and kg is not None and (o.lt(kg, kx) if j < i else o.le(kg, kx))
                        ctx.check(ok, "least-key", fi.qual, f"({label}) does not take the (first) item with the least key", ctx.where(fi), pathstr(p))
    # two stores the same, or none, is an error
    for lst, what in ((mk("list", S, S), "a store given twice"), (mk("list"), "no store")):
        for api in ("Component.from_store", "Component.to_store"):
            f2 = ctx.m.need(api)
            w = World()
            L = mk("new", "list", "stores")

            def pre(eng, st, lst=lst, w=w):
                out = w.pre()(eng, st)
                for s in out:
                    s.heap[(L, "#items")] = lst
                return out

            a = {"self": ME, "store": L, **NOFAIL}
            if api.endswith("to_store") and not api.endswith("from_store"):
                a["item"] = ITEM
            for p in ctx.paths(f2, key="store" + what, args=a, pre=pre, queues=False, loop_k=6, entry=f2, recurse=8, max_depth=24, yieldless=False):
                ctx.check(p.raised and p.outcome[1].name == "ValueError" and not [e for e in p.events if e.kind in ("push", "tally")], "argument-error", api, f"({what}) is not refused", ctx.where(f2), pathstr(p))
    ctx.floor("from_store calls", 20)


def items_in(p, t):
    while t.op == "pure" and t.a[0] == "list":
        t = t.a[1]
    if t.op in ("list", "tuple"):
        return list(t.a)
    r = p.heap.get((t, "#items"))
    return list(r.a) if r is not None else None


def to_store(ctx):
    fi = ctx.m.need("Component.to_store")
    rp, pr = mk("sym", "arg:request_priority"), mk("sym", "arg:priority")
    for arg, items, froms in ((S, [comp(0)], []), (BOTH, [comp(0)], []), (S, [comp(0)], [req(0), req(1)]), (BOTH, [], [])):
        for yl in (False, True):
            w = World(items, froms=froms)
            _, ps = spaths(ctx, fi.qual, f"ts{arg.a[1]}{len(items)}{len(froms)}{yl}", w, {"self": ME, "store": arg, "item": ITEM, **NOFAIL}, yieldless=yl)
            stores = [S, S2] if arg is BOTH else [S]
            for p in ps:
                label = f"{len(items)} items, {len(froms)} requesters{', yieldless' if yl else ''}"
                if p.raised:
                    ctx.fail("to_store", fi.qual, f"({label}) raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                    continue
                ctx.count("to_store calls")
                h = p.heap
                m = {s: seq(p, s)[1] for s in STORES}
                q = {s: seq(p, TO[s])[1] for s in STORES}
                room = {s: implied(p.facts, cmp_lt(const(len(w.items[s])), cap(s))) for s in STORES}
                gone = [r for r in froms if h.get((r, "_from_store_item")) is ITEM]
                if ITEM not in m[S] + m[S2] and not gone:
                    ctx.check(all(room[s] is False for s in stores), "no-waiting-in-vain", fi.qual, f"({label}) waits although a store may have room", ctx.where(fi), pathstr(p))
                    ctx.check(all((q[s] == [ME]) == (s in stores) for s in STORES), "waits-in-all-stores", fi.qual, f"({label}) does not wait in (only) the stores given", ctx.where(fi), pathstr(p))
                    for s in stores:
                        n = node_of(p, ME, TO[s])
                        ctx.check(n is not None and h.get((n, "priority")) is rp, "request-priority", fi.qual, f"({label}) the request does not get its priority", ctx.where(fi), pathstr(p))
                    l = h.get((ME, "_to_stores"))
                    ctx.check(l is not None and items_in(p, l) == stores, "waits-in-all-stores", fi.qual, f"({label}) remembers {l!r}", ctx.where(fi), pathstr(p))
                    ctx.check(h.get((ME, "_to_store_item")) is ITEM and h.get((ME, "_to_store_priority")) is pr, "item-kept", fi.qual, f"({label}) does not remember its item and priority", ctx.where(fi), pathstr(p))
                    tl = [e.value for e in p.events if e.kind == "tally" and e.base is A(ME, "status")]
                    ctx.check(bool(tl) and const("requesting") in tl, "waits", fi.qual, f"({label}) gets status {tl!r}", ctx.where(fi), pathstr(p))
                    continue
                dst = next((s for s in STORES if ITEM in m[s]), None)
                ctx.check(sum(ITEM in m[s] for s in STORES) + len(gone) == 1, "item-enters-once", fi.qual, f"({label}) the item is in more than one place", ctx.where(fi), pathstr(p))
                rep = h.get((ME, "_to_store_store"))
                ctx.check(rep in stores and (dst is None or rep is dst), "right-store-reported", fi.qual, f"({label}) to_store_store() is not the store of the item", ctx.where(fi), pathstr(p))
                if dst is not None:
                    n = node_of(p, ITEM, dst)
                    ctx.check(h.get((n, "priority")) is pr, "priority-in-store", fi.qual, f"({label}) the item enters with priority {h.get((n, 'priority'))!r}", ctx.where(fi), pathstr(p))
                if rep in stores:
                    ctx.check(all(room[s] is False for s in stores[: stores.index(rep)]), "first-store-with-room", fi.qual, f"({label}) skips a store that may have room", ctx.where(fi), pathstr(p))
                ctx.check(not any(q.values()) and empty(p, h.get((ME, "_to_stores"))), "honored-leaves-all", fi.qual, f"({label}) waits although it was honored", ctx.where(fi), pathstr(p))
                scheduled_now(ctx, p, ME, fi.qual, label, fi)
                judge(ctx, p, w, fi.qual, label, fi, arriving={dst or rep: [ITEM]})
    ctx.floor("to_store calls", 10)


def new_store(ctx):
    """a new store has its own, internal queues of requesters, before it is filled"""
    fi = ctx.m.need("Store.__init__")
    made = {}

    def h_queue(eng, st, recv, pos, kw, node):
        st = st.clone()
        st.uniq += 1
        q = mk("new", "Queue", f"requesters{st.uniq}")
        st = eng.event(st, Ev("new", q, "Queue", args={**{i: a for i, a in enumerate(pos)}, **kw}), node)
        return [(st, q)]

    me = mk("new", "Store", "self")
    for p in ctx.paths(fi, key="newstore", args={"self": me, "fill": mk("list", ITEM)}, queues=True, yieldless=False, entry=fi, extra_handlers={"Queue": h_queue, "Queue.__init__": lambda eng, st, recv, b, node, f: [(eng.event(st, Ev("init", recv, "Queue.__init__", args=b), node), NONE)]}):
        if p.raised:
            continue
        a, b = p.heap.get((me, "_from_store_requesters")), p.heap.get((me, "_to_store_requesters"))
        ctx.count("new stores")
        ctx.check(a is not None and b is not None and a is not b, "own-requesters", fi.qual, "the queues of requesters are not two different new queues", ctx.where(fi), pathstr(p))
        for q in (a, b):
            if q is not None:
                ctx.check(p.heap.get((q, "_isinternal")) is TRUE, "own-requesters", fi.qual, "a queue of requesters is not internal", ctx.where(fi), pathstr(p))
