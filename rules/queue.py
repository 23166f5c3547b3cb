"""Queues: links, length, membership, order, statistics, iteration.

The list structure is decided with a shape analysis: the links of a queue with 0..3 members are materialised in the
abstract heap (members, their components and priorities stay symbolic), the operation is followed on every path and the
links that are left are compared with the sequence that the documentation prescribes.
"""
import ast
import itertools
from lib.core import *
from lib.engine import and_facts
from . import prop
from .resource import A, wr

Q = mk("new", "Queue", "Q")
HEAD, TAIL = mk("new", "Qmember", "head"), mk("new", "Qmember", "tail")
ME = mk("new", "Component", "new")
PRIO = mk("sym", "arg:priority")
ITERS = (const(-1), const(-2))  # two iterations under way


def node(i):
    return mk("new", "Qmember", f"m{i}")


def comp(i):
    return mk("new", "Component", f"c{i}")


def prio(i):
    return mk("sym", f"prio{i}")


def materialise(st, k, q=Q, tag="", off=0, head=HEAD, tail=TAIL, cs=None):
    """links of a queue with k members in the abstract heap"""
    h = st.heap
    h[(q, "_head")], h[(q, "_tail")] = head, tail
    ns = [mk("new", "Qmember", f"{tag}m{i}") for i in range(k)]
    cs = cs or [comp(i + off) for i in range(k)]
    seq = [head] + ns + [tail]
    for a, b in zip(seq, seq[1:]):
        h[(a, "successor")] = b
        h[(b, "predecessor")] = a
    h[(head, "predecessor")] = h[(tail, "successor")] = NONE
    for n in (head, tail):
        h[(n, "component")] = NONE
        h[(n, "priority")] = const(0)
    for i, (n, c) in enumerate(zip(ns, cs)):
        h[(n, "component")] = c
        h[(n, "priority")] = mk("sym", f"{tag}prio{i}")
        h[(n, "queue")] = q
        h[(n, "enter_time")] = mk("sym", f"{tag}entered{i}")
        d = qdict(c)
        h[(c, "_qmembers")] = d
        h[(d, ("[]", q))] = n
    t = mk("new", "dict", ("iterators of", q))
    h[(q, "_iter_touched")] = t
    h[(t, "#items")] = mk("list", *ITERS)
    for i in ITERS:
        h[(t, ("[]", i))] = FALSE
    h[(q, "_length")] = const(k)
    h[(q, "_isinternal")] = FALSE
    return ns, cs


def qdict(c):
    return mk("new", "dict", ("members of", c))


def outsider(st, c=ME, q=Q):
    d = qdict(c)
    st.heap[(c, "_qmembers")] = d
    st.heap[(d, ("in", q))] = FALSE


def links(p, q=Q, head=HEAD, tail=TAIL):
    """(nodes, error) from the links that are left"""
    h = p.heap
    out, x, prev = [], h.get((head, "successor")), head
    while x is not tail:
        if x is None or len(out) > 8 or x in out:
            return out, "the links do not lead to the tail"
        if h.get((x, "predecessor")) is not prev:
            return out, "predecessor and successor links disagree"
        out.append(x)
        prev = x
        x = h.get((x, "successor"))
    if h.get((tail, "predecessor")) is not prev:
        return out, "the last member is not the predecessor of the tail"
    return out, None


class Order:
    """closure of the comparisons between priorities known on a path"""

    def __init__(self, facts, sorted_prios):
        self.d = {}
        ne = []
        for a, b in zip(sorted_prios, sorted_prios[1:]):
            self.add(a, b, False)
        for f, v in facts.items():
            if f.op != "cmp":
                continue
            k = f.a[0]
            if k == "eq" and v:
                self.add(f.a[1], f.a[2], False)
                self.add(f.a[2], f.a[1], False)
            elif k == "eq":
                ne.append((f.a[1], f.a[2]))
            if k not in ("lt", "le", "eq0"):
                continue
            c, parts = tm.lin_parts(f.a[1])
            if c != 0 or f.a[2] != 0:
                continue
            it = list(parts.items())
            if len(it) == 2 and {it[0][1], it[1][1]} == {1, -1}:
                a = next(t for t, x in it if x == 1)
                b = next(t for t, x in it if x == -1)
            elif len(it) == 1 and abs(it[0][1]) == 1:
                a, b = (it[0][0], const(0)) if it[0][1] == 1 else (const(0), it[0][0])
            else:
                continue
            if k == "eq0":
                if v:
                    self.add(a, b, False)
                    self.add(b, a, False)
                else:
                    ne.append((a, b))
                continue
            if v:
                self.add(a, b, k == "lt")
            else:
                self.add(b, a, k == "le")
        self.close()
        more = False
        for a, b in ne:
            for e in ((a, b), (b, a)):
                if self.d.get(e) is False:
                    self.d[e] = more = True
        if more:
            self.close()

    def close(self):
        keys = {x for e in self.d for x in e}
        for m in keys:
            for a in keys:
                for b in keys:
                    if (a, m) in self.d and (m, b) in self.d:
                        s = self.d[(a, m)] or self.d[(m, b)]
                        self.add(a, b, s)

    def add(self, a, b, strict):
        self.d[(a, b)] = self.d.get((a, b), False) or strict

    def le(self, a, b):
        return a is b or (a, b) in self.d

    def lt(self, a, b):
        return self.d.get((a, b), False)

    def contradictory(self):
        return any(a is b and s for (a, b), s in self.d.items())


# ---------------------------------------------------------------- operations
DELETED = mk("sym", "<deleted>")
CAP = mk("attr", mk("attr", Q, "capacity"), "_tally")


class Case:
    """one operation on a queue with k members"""

    def __init__(self, api, k, args, label, want=None, subject=None, raises=None, kind=None, at=None, given=None, result=None, j=None):
        self.api, self.k, self.args, self.label = api, k, args, label
        self.want, self.subject, self.raises, self.kind, self.at, self.given, self.result, self.j = want, subject, raises, kind, at, given, result, j


def cases(k):
    cs = [comp(i) for i in range(k)]
    P = [prio(i) for i in range(k)]
    last = P[-1] if k else const(0)
    first = P[0] if k else const(0)
    C, Qu = {"self": ME, "q": Q}, {"self": Q, "component": ME}
    out = []
    add = lambda *a, **kw: out.append(Case(*a, **kw))
    app = cs + [ME]
    for api, a in (("Component.enter", C), ("Queue.add", Qu), ("Queue.append", Qu)):
        add(api, k, {**a, "priority": NONE}, "at tail", want=app, subject=ME, kind="enter", given=last)
        add(api, k, a, "with priority", subject=ME, kind="sorted", given=PRIO)
    for api, a in (("Component.enter_sorted", C), ("Queue.add_sorted", Qu)):
        add(api, k, a, "with priority", subject=ME, kind="sorted", given=PRIO)
    for api, a in (("Component.enter_at_head", C), ("Queue.add_at_head", Qu)):
        add(api, k, a, "at head", want=[ME] + cs, subject=ME, kind="enter", given=first)
    for j in range(k):
        for api, a in (("Component.enter_in_front_of", C), ("Queue.add_in_front_of", Qu)):
            add(api, k, {**a, "poscomponent": cs[j]}, f"in front of member {j}", want=cs[:j] + [ME] + cs[j:], subject=ME, kind="enter", given=P[j])
        for api, a in (("Component.enter_behind", C), ("Queue.add_behind", Qu)):
            add(api, k, {**a, "poscomponent": cs[j]}, f"behind member {j}", want=cs[: j + 1] + [ME] + cs[j + 1 :], subject=ME, kind="enter", given=P[j])
        for api, a in (("Component.enter", {"self": cs[j], "q": Q}), ("Component.enter_at_head", {"self": cs[j], "q": Q}), ("Queue.add", {"self": Q, "component": cs[j]}), ("Queue.append", {"self": Q, "component": cs[j]}), ("Queue.insert", {"self": Q, "component": cs[j], "index": const(0)}), ("Component.enter_sorted", {"self": cs[j], "q": Q})):
            add(api, k, a, "already a member", want=cs, raises="ValueError")
        for api, a in (("Component.enter_in_front_of", {"self": cs[j], "q": Q}), ("Component.enter_behind", {"self": cs[j], "q": Q}), ("Queue.add_in_front_of", {"self": Q, "component": cs[j]}), ("Queue.add_behind", {"self": Q, "component": cs[j]})):
            for i in range(k):
                add(api, k, {**a, "poscomponent": cs[i]}, "already a member", want=cs, raises="ValueError")
        for api, a in (("Component.leave", {"self": cs[j], "q": Q}), ("Queue.remove", {"self": Q, "component": cs[j]}), ("Queue.pop", {"self": Q, "index": const(j)}), ("Queue.pop", {"self": Q, "index": const(j - k)}), ("Queue.__delitem__", {"self": Q, "key": const(j)})):
            add(api, k, a, f"member {j}", want=cs[:j] + cs[j + 1 :], kind="leave", j=j, result=cs[j] if api == "Queue.pop" else None)
        add("Component.priority", k, {"self": cs[j], "q": Q, "priority": NONE}, f"of member {j}", want=cs, result=P[j], kind="same")
        add("Component.priority", k, {"self": cs[j], "q": Q}, f"of member {j}", kind="reprio", given=PRIO, j=j)
        add("Component.successor", k, {"self": cs[j], "q": Q}, f"of member {j}", want=cs, result=cs[j + 1] if j + 1 < k else NONE, kind="same")
        add("Component.predecessor", k, {"self": cs[j], "q": Q}, f"of member {j}", want=cs, result=cs[j - 1] if j else NONE, kind="same")
        add("Queue.successor", k, {"self": Q, "component": cs[j]}, f"of member {j}", want=cs, result=cs[j + 1] if j + 1 < k else NONE, kind="same")
        add("Queue.predecessor", k, {"self": Q, "component": cs[j]}, f"of member {j}", want=cs, result=cs[j - 1] if j else NONE, kind="same")
        add("Component.index", k, {"self": cs[j], "q": Q}, f"of member {j}", want=cs, result=const(j), kind="same")
        add("Queue.index", k, {"self": Q, "component": cs[j]}, f"of member {j}", want=cs, result=const(j), kind="same")
        add("Component.count", k, {"self": cs[j], "q": Q}, f"of member {j}", want=cs, result=const(1), kind="same")
        add("Queue.__contains__", k, {"self": Q, "component": cs[j]}, f"member {j}", want=cs, result=TRUE, kind="same")
        add("Queue.__getitem__", k, {"self": Q, "key": const(j)}, f"[{j}]", want=cs, result=cs[j], kind="same")
        add("Queue.__getitem__", k, {"self": Q, "key": const(j - k)}, f"[{j - k}]", want=cs, result=cs[j], kind="same")
        add("Component.enter_time", k, {"self": cs[j], "q": Q}, f"of member {j}", want=cs, result=tm.sub(mk("sym", f"entered{j}"), OFFSET), kind="same")
    for i in range(k + 1):
        add("Queue.insert", k, {**Qu, "index": const(i)}, f"at {i}", want=cs[:i] + [ME] + cs[i:], subject=ME, kind="enter")
    for i in (-1, k + 1):
        add("Queue.insert", k, {**Qu, "index": const(i)}, f"at {i}", want=cs, raises="IndexError")
    for i in (-k - 1, k):
        add("Queue.__getitem__", k, {"self": Q, "key": const(i)}, f"[{i}]", want=cs, raises="IndexError")
        add("Queue.pop", k, {"self": Q, "index": const(i)}, f"[{i}]", want=cs, raises="IndexError")
    for api, a in (("Component.leave", C), ("Component.priority", C), ("Component.successor", C), ("Component.predecessor", C), ("Component.enter_time", C), ("Queue.remove", Qu), ("Component.enter_in_front_of", {**C, "self": mk("new", "Component", "other"), "poscomponent": ME}), ("Component.enter_behind", {**C, "self": mk("new", "Component", "other"), "poscomponent": ME})):
        add(api, k, a, "not a member", want=cs, raises="ValueError")
    add("Queue.pop", k, {"self": Q, "index": NONE}, "first", want=cs[1:], kind="leave" if k else "same", j=0, result=cs[0] if k else NONE)
    add("Queue.head", k, {"self": Q}, "", want=cs, result=cs[0] if k else NONE, kind="same")
    add("Queue.tail", k, {"self": Q}, "", want=cs, result=cs[-1] if k else NONE, kind="same")
    add("Queue.__len__", k, {"self": Q}, "", want=cs, result=const(k), kind="same")
    add("Queue.__contains__", k, Qu, "not a member", want=cs, result=FALSE, kind="same")
    add("Component.index", k, C, "not a member", want=cs, result=const(-1), kind="same")
    add("Component.count", k, C, "not a member", want=cs, result=const(0), kind="same")
    add("Queue.clear", k, {"self": Q}, "", want=[], kind="clear")
    add("Queue.remove", k, {"self": Q, "component": NONE}, "all", want=[], kind="clear")
    return out


def h_wrap(eng, st, recv, b, node, fi):
    return None


def pre_queue(k):
    def pre(eng, st):
        st.uniq = 100
        materialise(st, k)
        outsider(st)
        outsider(st, mk("new", "Component", "other"))
        return [and_facts(st, cmp_eq(PRIO, NONE), False)]

    return pre


def qpaths(ctx, c, cls=None):
    fi = ctx.m.get(c.api)
    if fi is None:
        return None, []
    return fi, ctx.paths(fi, key=f"shape{c.k}{c.label}", args=c.args, pre=pre_queue(c.k), queues=False, loop_k=6, yieldless=False, max_paths=20000, entry=fi)


def kmax(ctx):
    return 3 if ctx.tier == "quick" else 4


def writes_queue(p):
    """changes to queue, members, components that were there already"""
    own = lambda t: t.op == "new" and (t.a[1] in ("Q", "head", "tail") or isinstance(t.a[1], (str, tuple)))
    return [e for e in p.events if e.kind in ("write", "setitem", "delitem", "mut", "tally") and isinstance(e.base, tm.T) and (own(e.base) or (e.base.op == "attr" and own(e.base.a[0])))]


def sequence(p):
    ns, err = links(p)
    return ns, [p.heap.get((n, "component")) for n in ns], err


@prop("C16")
def c16(ctx):
    m = ctx.m
    for k in range(kmax(ctx) + 1):
        for c in cases(k):
            fi, ps = qpaths(ctx, c)
            if fi is None:
                continue
            name = f"{c.api} {c.label}".strip()
            good = 0
            for p in ps:
                ctx.count("operations on a queue")
                ns, seq, err = sequence(p)
                if not ctx.check(err is None, "links-consistent", c.api, f"({c.label}, {k} members) {err}", ctx.where(fi), pathstr(p)):
                    continue
                if p.raised:
                    nm = p.outcome[1].name
                    full = implied(p.facts, cmp_lt(CAP, const(k + 1))) is True
                    ok = (c.raises == nm) or (c.kind in ("enter", "sorted") and nm == "QueueFullError" and full)
                    ctx.check(ok, "refused-only-when-documented", c.api, f"({c.label}, {k} members) raises {nm}", ctx.where(fi), pathstr(p))
                    ctx.check(not writes_queue(p), "refused-changes-nothing", c.api, f"({c.label}) raises {nm} after changing the queue", ctx.where(fi), pathstr(p))
                    good += c.raises == nm
                    continue
                if c.raises:
                    ctx.fail("refused-when-documented", c.api, f"({c.label}, {k} members) does not raise {c.raises}", ctx.where(fi), pathstr(p))
                    continue
                good += 1
                if c.kind in ("enter", "sorted"):
                    ctx.check(sorted(map(id, seq)) == sorted(map(id, [comp(i) for i in range(k)] + [ME])), "members", c.api, f"({c.label}, {k} members) leaves members {seq!r}", ctx.where(fi), pathstr(p))
                    ctx.check([x for x in seq if x is not ME] == [comp(i) for i in range(k)], "others-keep-their-order", c.api, f"({c.label}) leaves {seq!r}", ctx.where(fi), pathstr(p))
                if c.want is not None:
                    ctx.check(seq == c.want, "position", c.api, f"({c.label}, {k} members) leaves {seq!r}; {c.want!r} required", ctx.where(fi), pathstr(p))
                if c.kind == "reprio":
                    mine = comp(c.j)
                    ctx.check(sorted(map(id, seq)) == sorted(id(comp(i)) for i in range(k)) and [x for x in seq if x is not mine] == [comp(i) for i in range(k) if i != c.j], "others-keep-their-order", c.api, f"changing a priority leaves {seq!r}", ctx.where(fi), pathstr(p))
                    ctx.check(node_of(p, mine) is node(c.j) and p.heap.get((node(c.j), "enter_time")) is mk("sym", f"entered{c.j}"), "stay-continues", c.api, "changing a priority starts a new stay in the queue", ctx.where(fi), pathstr(p))
                if c.kind == "same":
                    ctx.check(not writes_queue(p), "inquiry-changes-nothing", c.api, f"({c.label}) changes the queue", ctx.where(fi), pathstr(p))
                ctx.check(p.heap.get((Q, "_length")) is const(len(ns)), "length", c.api, f"({c.label}, {k} members) leaves length {p.heap.get((Q, '_length'))!r} with {len(ns)} members", ctx.where(fi), pathstr(p))
                for n, x in zip(ns, seq):
                    ctx.check(node_of(p, x) is n, "membership", c.api, f"({c.label}) {x!r} is linked but does not know that it is a member", ctx.where(fi), pathstr(p))
                for i in range(k):
                    if comp(i) not in seq:
                        ctx.check(node_of(p, comp(i)) is DELETED, "membership", c.api, f"({c.label}) a component that left still thinks it is a member", ctx.where(fi), pathstr(p))
                        ctx.check(p.heap.get((node(i), "component")) is NONE, "left-is-marked", c.api, f"({c.label}) iterations under way cannot see that a component left", ctx.where(fi), pathstr(p))
                if c.result is not None:
                    v = p.outcome[1]
                    if c.result in (TRUE, FALSE) and v.op in ("cmp", "not"):
                        d = implied(p.facts, v)
                        v = TRUE if d is True else FALSE if d is False else v
                    ctx.check(v is c.result, "result", c.api, f"({c.label}, {k} members) returns {p.outcome[1]!r}; {c.result!r} required", ctx.where(fi), pathstr(p))
            ctx.check(good > 0, "works", c.api, f"({c.label}, {k} members) never succeeds", ctx.where(fi))
    ctx.floor("operations on a queue", 200)
    leave_all(ctx)
    new_queue(ctx)


def node_of(p, c, q=Q):
    return p.heap.get((qdict(c), ("[]", q)))


def leave_all(ctx):
    """leave() leaves all queues of the user, no internal ones"""
    fi = ctx.m.need("Component.leave")
    qs = [mk("new", "Queue", f"Q{i}") for i in range(3)]

    def pre(eng, st):
        st.uniq = 100
        for i, q in enumerate(qs):
            h, t = mk("new", "Qmember", f"head{i}"), mk("new", "Qmember", f"tail{i}")
            materialise(st, 1, q=q, tag=f"q{i}", head=h, tail=t)
            st.heap[(q, "_isinternal")] = TRUE if i == 1 else FALSE
        st.heap[(qdict(comp(0)), "#items")] = mk("list", *qs)
        return [st]

    for p in ctx.paths(fi, key="all", args={"self": comp(0), "q": NONE}, pre=pre, queues=False, loop_k=6, yieldless=False, extra_handlers={fi.qual: h_leave}):
        if p.raised:
            continue
        ctx.count("leave all")
        for i, q in enumerate(qs):
            gone = node_of(p, comp(0), q) is DELETED or any(e.kind == "leave" and e.value is q and e.base is comp(0) for e in p.events)
            ctx.check(gone == (i != 1), "leave-all", fi.qual, "leave() leaves an internal queue" if gone else "leave() stays in a queue", ctx.where(fi), pathstr(p))
    ctx.floor("leave all", 1)


def new_queue(ctx):
    fi = ctx.m.need("Queue.__init__")
    for p in ctx.paths(fi, key="new", queues=False, yieldless=False, entry=fi):
        if p.raised:
            continue
        h, t = p.heap.get((SELF, "_head")), p.heap.get((SELF, "_tail"))
        fill = [e for e in p.events if e.kind == "call" or e.kind == "enter"]
        ctx.count("new queues")
        ok = h is not None and t is not None and h is not t
        ctx.check(ok, "new-queue", fi.qual, "a new queue has no head and tail", ctx.where(fi), pathstr(p))
        if ok and implied(p.facts, cmp_eq(mk("sym", "arg:fill"), NONE)) is True:
            ctx.check(p.heap.get((h, "successor")) is t and p.heap.get((t, "predecessor")) is h, "new-queue", fi.qual, "head and tail of a new queue are not linked", ctx.where(fi), pathstr(p))
            ctx.check(p.heap.get((h, "component")) is NONE and p.heap.get((t, "component")) is NONE, "new-queue", fi.qual, "head and tail are not marked as such", ctx.where(fi), pathstr(p))
            ctx.check(p.heap.get((SELF, "_length")) is const(0), "new-queue", fi.qual, "a new queue is not empty", ctx.where(fi), pathstr(p))
    ctx.floor("new queues", 1)


@prop("C17")
def c17(ctx):
    for k in range(kmax(ctx) + 1):
        for c in cases(k):
            if c.kind not in ("enter", "sorted", "reprio", "leave") or c.raises:
                continue
            fi, ps = qpaths(ctx, c)
            if fi is None:
                continue
            P = [prio(i) for i in range(k)]
            for p in ps:
                if p.raised:
                    continue
                o = Order(p.facts, P)
                if o.contradictory():
                    continue
                ns, seq, err = sequence(p)
                if err:
                    ctx.fail("priority-order", c.api, err, ctx.where(fi), pathstr(p))
                    continue
                ctx.count("orders decided")
                vals = [p.heap.get((n, "priority")) for n in ns]
                mine = ME if c.kind in ("enter", "sorted") else comp(c.j) if c.kind == "reprio" else None
                for x, v in zip(seq, vals):
                    if x is not mine:
                        i = next((i for i in range(k) if comp(i) is x), None)
                        ctx.check(i is not None and v is P[i], "priorities-kept", c.api, f"({c.label}) changes the priority of another member", ctx.where(fi), pathstr(p))
                for a, b in zip(vals, vals[1:]):
                    ctx.check(a is not None and b is not None and o.le(a, b), "priority-order", c.api, f"({c.label}, {k} members) {a!r} comes before {b!r}", ctx.where(fi), pathstr(p))
                if mine is None or mine not in seq:
                    continue
                i = seq.index(mine)
                if c.given is not None:
                    same = c.kind == "reprio" and o.le(c.given, vals[i]) and o.le(vals[i], c.given)
                    ctx.check(vals[i] is c.given or same, "priority-recorded", c.api, f"({c.label}) records priority {vals[i]!r}; {c.given!r} required", ctx.where(fi), pathstr(p))
                if c.kind == "sorted" or (c.kind == "reprio" and not (o.le(PRIO, P[c.j]) and o.le(P[c.j], PRIO))):
                    # behind the last member with the same priority
                    if i + 1 < len(ns):
                        ctx.check(o.lt(vals[i], vals[i + 1]), "behind-equals", c.api, f"({c.label}, {k} members) is put in front of a member that may have the same priority", ctx.where(fi), pathstr(p))
    ctx.floor("orders decided", 100)


def q_tallies(p, name):
    return [e for e in p.events if e.kind == "tally" and is_attr(e.base, name, Q)]


@prop("C18")
def c18(ctx):
    m = ctx.m
    for k in range(kmax(ctx)):
        for c in cases(k):
            if c.kind not in ("enter", "sorted", "reprio", "leave", "clear") or c.raises:
                continue
            fi, ps = qpaths(ctx, c)
            if fi is None:
                continue
            for p in ps:
                L, AV, ST = q_tallies(p, "length"), q_tallies(p, "available_quantity"), q_tallies(p, "length_of_stay")
                arr = wr(p, "number_of_arrivals", Q)
                dep = wr(p, "number_of_departures", Q)
                a0, d0 = A(Q, "number_of_arrivals"), A(Q, "number_of_departures")
                full = implied(p.facts, cmp_lt(CAP, const(k + 1)))
                if p.raised:
                    ctx.check(p.outcome[1].name == "QueueFullError" and full is True, "full-only-at-capacity", c.api, f"({c.label}, {k} members) raises {p.outcome[1].name} while there may be room", ctx.where(fi), pathstr(p))
                    continue
                n = k + 1 if c.kind in ("enter", "sorted") else k - 1 if c.kind == "leave" else 0 if c.kind == "clear" else k
                ctx.count("statistics after an operation")
                if c.kind in ("enter", "sorted"):
                    ctx.check(full is False, "capacity", c.api, f"({c.label}, {k} members) a component enters a queue that may be full", ctx.where(fi), pathstr(p))
                    ctx.check(bool(arr) and arr[-1].value is tm.add(a0, const(1)) and not dep, "arrivals-departures", c.api, f"({c.label}) is not counted as one arrival", ctx.where(fi), pathstr(p))
                    ctx.check(not ST, "length-of-stay", c.api, "an arrival tallies a length of stay", ctx.where(fi), pathstr(p))
                    nn = node_of(p, ME)
                    ctx.check(nn is not None and p.heap.get((nn, "enter_time")) is NOW, "enter-time", c.api, f"({c.label}) enter time {p.heap.get((nn, 'enter_time'))!r}", ctx.where(fi), pathstr(p))
                if c.kind == "leave":
                    ctx.check(bool(dep) and dep[-1].value is tm.add(d0, const(1)) and not arr, "arrivals-departures", c.api, f"({c.label}) is not counted as one departure", ctx.where(fi), pathstr(p))
                    ctx.check(len(ST) == 1 and ST[0].value is tm.sub(NOW, mk("sym", f"entered{c.j}")), "length-of-stay", c.api, f"({c.label}) length of stay {[e.value for e in ST]!r}", ctx.where(fi), pathstr(p))
                if c.kind == "clear":
                    want = [tm.sub(NOW, mk("sym", f"entered{i}")) for i in range(k)]
                    ctx.check(sorted(repr(e.value) for e in ST) == sorted(map(repr, want)), "length-of-stay", c.api, f"length of stay {[e.value for e in ST]!r}", ctx.where(fi), pathstr(p))
                    ctx.check(not arr and (bool(dep) or not k) and (not dep or dep[-1].value is tm.add(d0, const(k))), "arrivals-departures", c.api, "clearing does not count one departure per member", ctx.where(fi), pathstr(p))
                if c.kind == "reprio":
                    ctx.check(not (L and L[-1].value is not const(k)) and not ST and not arr and not dep, "no-statistics", c.api, "changing a priority affects the statistics", ctx.where(fi), pathstr(p))
                elif n != k:
                    ctx.check(bool(L) and L[-1].value is const(n), "length-monitored", c.api, f"({c.label}, {k} members) monitored length {[e.value for e in L]!r}", ctx.where(fi), pathstr(p))
                    ctx.check(bool(AV) and AV[-1].value is tm.sub(CAP, const(n)), "available-monitored", c.api, f"({c.label}, {k} members) monitored available quantity {[e.value for e in AV]!r}", ctx.where(fi), pathstr(p))
    ctx.floor("statistics after an operation", 40)
    # capacity changes
    fi = m.need("Queue.set_capacity")
    cap = mk("sym", "arg:cap")
    for k in range(2):
        for p in ctx.paths(fi, key=f"cap{k}", args={"self": Q}, pre=pre_queue(k), queues=False, yieldless=False, entry=fi):
            if p.raised:
                ctx.fail("capacity-monitored", fi.qual, "changing the capacity fails", ctx.where(fi), pathstr(p))
                continue
            t, a = q_tallies(p, "capacity"), q_tallies(p, "available_quantity")
            ctx.count("capacity changes")
            ctx.check(bool(t) and t[-1].value is cap, "capacity-monitored", fi.qual, f"the new capacity is recorded as {[e.value for e in t]!r}", ctx.where(fi), pathstr(p))
            ctx.check(bool(a) and a[-1].value is tm.sub(cap, const(k)), "available-monitored", fi.qual, f"the available quantity is recorded as {[e.value for e in a]!r}", ctx.where(fi), pathstr(p))
    ctx.floor("capacity changes", 1)
    # initial values
    fi = m.need("Queue.__init__")
    for p in ctx.paths(fi, key="new", queues=False, yieldless=False, entry=fi):
        if p.raised:
            continue
        cap = mk("sym", "arg:capacity")
        for attr, want in (("length", const(0)), ("capacity", cap), ("available_quantity", cap)):
            mon = p.heap.get((SELF, attr))
            ev = [e for e in p.events if e.kind == "new" and e.base is mon]
            got = ev[-1].args.get("initial_tally") if ev else None
            ctx.check(bool(ev) and got is want and ev[-1].args.get("level") is TRUE, "initial-statistics", fi.qual, f"monitor {attr} starts with {got!r}", ctx.where(fi), pathstr(p))
            ctx.count("initial statistics")
        for a in ("number_of_arrivals", "number_of_departures"):
            if implied(p.facts, cmp_eq(mk("sym", "arg:fill"), NONE)) is True:
                ctx.check(p.heap.get((SELF, a)) is const(0) and p.heap.get((SELF, a + "_t0")) is NOW, "initial-statistics", fi.qual, f"{a} starts with {p.heap.get((SELF, a))!r}", ctx.where(fi), pathstr(p))
    ctx.floor("initial statistics", 3)
    for api, a in (("Queue.arrival_rate", "number_of_arrivals"), ("Queue.departure_rate", "number_of_departures")):
        fi = m.need(api)
        rs = mk("sym", "arg:reset")
        for p in ctx.paths(fi, key="rate", args={"self": Q}, queues=False, yieldless=False, entry=fi):
            r = implied(p.facts, truth(rs))
            w, w0 = wr(p, a, Q), wr(p, a + "_t0", Q)
            if r is True:
                ctx.check(bool(w) and w[-1].value is const(0) and bool(w0) and w0[-1].value is NOW, "rate", api, "a reset does not restart the count at the current time", ctx.where(fi), pathstr(p))
            else:
                ctx.check(not w and not w0, "rate", api, "asking for the rate restarts the count", ctx.where(fi), pathstr(p))
                dur = tm.sub(NOW, A(Q, a + "_t0"))
                z = implied(p.facts, cmp_eq(dur, const(0)))
                v = p.outcome[1]
                if z is False or (z is None and not p.raised and v.op != "glob"):
                    ctx.check(v is tm.div(A(Q, a), dur), "rate", api, f"returns {v!r}", ctx.where(fi), pathstr(p))
                ctx.count("rates")
    ctx.floor("rates", 2)


# ---------------------------------------------------------------- C19 iteration and derived queues
def h_newqueue(eng, st, recv, pos, kw, node):
    st = st.clone()
    st.uniq += 1
    q = mk("new", "Queue", f"result{st.uniq}")
    materialise(st, 0, q=q, head=mk("new", "Qmember", f"rhead{st.uniq}"), tail=mk("new", "Qmember", f"rtail{st.uniq}"))
    st = eng.event(st, Ev("new", q, "Queue", args={**{i: a for i, a in enumerate(pos)}, **kw}), node)
    return [(st, q)]


def h_indices(val):
    def h(eng, st, recv, pos, kw, node):
        if recv.op == "sym" and recv.a[0] == "a slice" and len(pos) == 1 and tm.is_num_const(pos[0]):
            v = val.indices(int(tm.num_value(pos[0])))
            return [(st, mk("tuple", *[const(x) for x in v]))]
        return None

    return h


def count_yields(st):
    n, e = 0, st.ev
    while e is not None:
        n += e[1].kind == "yield"
        e = e[0]
    return n


def changes(k, i):
    """what happens to the queue while the body of the iteration runs for the i-th time"""
    out = [("", [])]
    for j in range(k):
        out.append((f"member {j} leaves", [(comp(j), "leave", [Q])]))
        out.append((f"a component enters behind member {j}", [(ME, "enter_behind", [Q, comp(j)])]))
        out.append((f"member {j} gets another priority", [(comp(j), "priority", [Q, PRIO])]))
        out.append((f"member {j} leaves and returns", [(comp(j), "leave", [Q]), (comp(j), "enter_at_head", [Q])]))
    out.append(("a component enters at the head", [(ME, "enter_at_head", [Q])]))
    out.append(("a component enters at the tail", [(ME, "enter", [Q])]))
    for j in range(k):
        out.append((f"member {j} leaves, then a component enters", [(comp(j), "leave", [Q]), (ME, "enter", [Q])]))
    out.append(("all leave, then a component enters", [(comp(j), "leave", [Q]) for j in range(k)] + [(ME, "enter", [Q])]))
    out.append(("a component enters and leaves again", [(ME, "enter", [Q]), (ME, "leave", [Q])]))
    return out


@prop("C19")
def c19(ctx):
    m = ctx.m
    for api, rev in (("Queue.__iter__", False), ("Queue.__reversed__", True)):
        fi = m.need(api)
        for k in range(kmax(ctx) + 1):
            for i in range(max(k, 1)):
                for label, ops in changes(k, i):
                    if not label and i:
                        continue

                    def on_yield(eng, st, t, i=i, ops=ops):
                        if not ops or count_yields(st) != i + 1:
                            return [st]
                        cur = [st]
                        for recv, name, args in ops:
                            nx = []
                            for s in cur:
                                for s2, v in eng.method_call(recv, name, list(args), {}, s, fi.node):
                                    if not isinstance(v, Raise):
                                        nx.append(s2)
                            cur = nx
                        return cur

                    def pre(eng, st, k=k):
                        st = pre_queue(k)(eng, st)[0]
                        return [and_facts(st, neg(cmp_lt(CAP, const(9))).a[0], False)]

                    for p in ctx.paths(fi, key=f"it{k}{i}{label}", args={"self": Q}, pre=pre, queues=False, loop_k=12, yieldless=False, entry=fi, on_yield=on_yield, max_paths=20000):
                        if p.raised:
                            ctx.fail("iteration-works", api, f"raises {p.outcome[1]!r} when {label or 'nothing changes'}", ctx.where(fi), pathstr(p))
                            continue
                        ys = [e.value for e in p.events if e.kind == "yield"]
                        ns, seq, err = sequence(p)
                        if err:
                            ctx.fail("iteration-keeps-links", api, err, ctx.where(fi), pathstr(p))
                            continue
                        if rev:
                            seq = seq[::-1]
                        ctx.count("iterations")
                        when = f"({k} members, {label or 'nothing changes'} at turn {i})"
                        back = "returns" in label
                        j = next((n for n in range(k) if f"member {n} " in label), None) if back else None
                        ctx.check(all(y in [comp(n) for n in range(k)] + [ME] for y in ys), "yields-members", api, f"{when} yields {ys!r}", ctx.where(fi), pathstr(p))
                        before, after = ys[: i + 1], ys[i + 1 :]
                        start = [comp(n) for n in range(k)]
                        if rev:
                            start.reverse()
                        ctx.check(before == start[: i + 1] or not k, "yields-in-order", api, f"{when} yields {ys!r}", ctx.where(fi), pathstr(p))
                        want = [x for x in seq if x not in before or (back and x is comp(j))]
                        if back:
                            # who returned is a new member of the queue: whether it gets a second turn is left open
                            ok = [x for x in after if x is not comp(j)] == [x for x in want if x is not comp(j)]
                        else:
                            ok = after == want
                        if k:
                            ctx.check(ok, "yields-in-order", api, f"{when} continues with {after!r}; {want!r} required", ctx.where(fi), pathstr(p))
    ctx.floor("iterations", 40)
    # slices
    fi = m.need("Queue.__getitem__")
    key = mk("sym", "a slice")
    for k in range(4):
        bounds = (None, 0, 1, 2, -1, 5) if ctx.tier == "quick" else (None, 0, 1, 2, 3, -1, -2, -5, 5)
        for a in bounds:
            for b in bounds:
                for stp in (None, 2, -1) if ctx.tier == "quick" else (None, 1, 2, 3, -1, -2):
                    sl = slice(a, b, stp)
                    want = [comp(i) for i in range(k)][sl]

                    def pre(eng, st, k=k, sl=sl):
                        sts = pre_queue(k)(eng, st)
                        for s in sts:
                            s.heap[(key, "#slice")] = mk("list", *(NONE if x is None else const(x) for x in (sl.start, sl.stop, sl.step)))
                        return sts

                    for p in ctx.paths(fi, key=f"slice{k}{sl}", args={"self": Q, "key": key}, pre=pre, queues=False, loop_k=6, yieldless=False, entry=fi, extra_handlers={".indices": h_indices(sl)}):
                        if implied(p.facts, mk("cmp", "isinst", key, ("slice",))) is not True:
                            continue
                        got = None if p.raised else items_of(p, p.outcome[1])
                        ctx.count("slices")
                        ctx.check(got == want, "slice", fi.qual, f"[{a}:{b}:{stp}] of {k} members gives {got!r}", ctx.where(fi), pathstr(p))
                    if (a, b) in ((None, None), (0, 1), (1, None), (None, -1)):
                        fd = m.need("Queue.__delitem__")
                        rest = [x for x in (comp(i) for i in range(k)) if x not in want]
                        for p in ctx.paths(fd, key=f"dslice{k}{sl}", args={"self": Q, "key": key}, pre=pre, queues=False, loop_k=6, yieldless=False, entry=fd, extra_handlers={".indices": h_indices(sl)}):
                            if implied(p.facts, mk("cmp", "isinst", key, ("slice",))) is not True:
                                continue
                            ns, err = links(p)
                            left = None if p.raised else [p.heap.get((x, "component")) for x in ns]
                            ctx.count("deleted slices")
                            ctx.check(err is None and left == rest, "slice-deleted", fd.qual, f"del [{a}:{b}:{stp}] of {k} members leaves {left!r}", ctx.where(fd), pathstr(p))
    ctx.floor("slices", 60)
    ctx.floor("deleted slices", 10)
    fi = m.get("Queue.__radd__")
    if fi:
        for p in ctx.paths(fi, key="radd0", args={"self": Q, "other": const(0)}, pre=pre_queue(1), queues=False, yieldless=False, entry=fi):
            ctx.check(not p.raised and p.outcome[1] is Q, "derived-queue", fi.qual, f"0 + queue, as in sum(), is {p.outcome[1]!r} and not the queue", ctx.where(fi), pathstr(p))
    # derived queues
    Q2 = mk("new", "Queue", "Q2")
    h2, t2 = mk("new", "Qmember", "head2"), mk("new", "Qmember", "tail2")
    for k1, k2, off in ((0, 0, 0), (2, 0, 0), (0, 2, 0), (2, 2, 1), (2, 2, 0), (1, 2, 2), (3, 1, 1)):
        a = [comp(i) for i in range(k1)]
        b = [comp(i + off) for i in range(k2)]

        def pre(eng, st, k1=k1, k2=k2, off=off):
            st.uniq = 100
            for i in range(max(k1, k2 + off)):
                outsider(st, comp(i), Q)
                outsider(st, comp(i), Q2)
            materialise(st, k1)
            materialise(st, k2, q=Q2, tag="o", off=off, head=h2, tail=t2)
            for i in range(k1):
                st.heap.pop((qdict(comp(i)), ("in", Q)), None)
            for i in range(k2):
                st.heap.pop((qdict(comp(i + off)), ("in", Q2)), None)
            return [and_facts(st, neg(cmp_lt(CAP, const(9))).a[0], False)]

        un = a + [x for x in b if x not in a]
        inter = [x for x in a if x in b]
        diff = [x for x in a if x not in b]
        sym = diff + [x for x in b if x not in a]
        table = [("union", "q", un), ("intersection", "q", inter), ("difference", "q", diff), ("symmetric_difference", "q", sym), ("__or__", "other", un), ("__add__", "other", un), ("__radd__", "other", un),
                 ("__and__", "other", inter), ("__sub__", "other", diff), ("__xor__", "other", sym), ("copy", None, a), ("move", None, a)]
        for name, par, want in table:
            fi = m.get("Queue." + name)
            if fi is None:
                continue
            args = {"self": Q}
            if par:
                args[par] = Q2
            n = 0
            for p in ctx.paths(fi, key=f"op{k1}{k2}{off}", args=args, pre=pre, queues=False, loop_k=6, yieldless=False, entry=fi, extra_handlers={"Queue": h_newqueue}, max_paths=20000):
                r = p.outcome[1]
                if p.raised:
                    full = r.name == "QueueFullError"
                    ctx.check(full, "derived-queue", fi.qual, f"raises {r!r}", ctx.where(fi), pathstr(p))
                    continue
                n += 1
                ctx.count("derived queues")
                if r is Q and name == "__radd__" and implied(p.facts, cmp_eq(Q2, const(0))) is True:
                    continue
                h, t = p.heap.get((r, "_head")), p.heap.get((r, "_tail"))
                if h is None:
                    ctx.fail("derived-queue", fi.qual, f"does not return a new queue but {r!r}", ctx.where(fi), pathstr(p))
                    continue
                ns, err = links(p, r, h, t)
                seq = [p.heap.get((x, "component")) for x in ns]
                ok = seq == want or (name == "__radd__" and sorted(map(id, seq)) == sorted(map(id, want)))
                ctx.check(err is None and ok, "derived-queue", fi.qual, f"of {a!r} and {b!r} is {seq!r}; {want!r} required ({err})", ctx.where(fi), pathstr(p))
                ctx.check(p.heap.get((r, "_length")) is const(len(want)), "derived-queue", fi.qual, "has a wrong length", ctx.where(fi), pathstr(p))
                for x, nn in zip(seq, ns):
                    ctx.check(node_of(p, x, r) is nn, "derived-queue", fi.qual, "its members do not know that they are", ctx.where(fi), pathstr(p))
                if name in ("copy", "move", "difference"):
                    pr = [p.heap.get((x, "priority")) for x in ns]
                    ctx.check(pr == [prio(a.index(x)) for x in seq if x in a], "derived-priorities", fi.qual, f"priorities become {pr!r}", ctx.where(fi), pathstr(p))
                left, err = links(p)
                own = [p.heap.get((x, "component")) for x in left]
                ctx.check(own == ([] if name == "move" else a), "operands-unchanged", fi.qual, f"the queue itself becomes {own!r}", ctx.where(fi), pathstr(p))
                if par:
                    l2, err = links(p, Q2, h2, t2)
                    ctx.check([p.heap.get((x, "component")) for x in l2] == b, "operands-unchanged", fi.qual, "the other queue changes", ctx.where(fi), pathstr(p))
            ctx.check(n > 0, "derived-queue", fi.qual, "no result", ctx.where(fi))
        fi = m.need("Queue.extend")
        for src, c in (("queue", True), ("queue", False), ("list", True), ("list", False)):
            lst = mk("new", "list", "source")

            def pre2(eng, st, pre=pre, b=b):
                st = pre(eng, st)[0]
                st.heap[(lst, "#items")] = mk("list", *b)
                return [st]

            for p in ctx.paths(fi, key=f"ext{k1}{k2}{off}{src}", args={"self": Q, "source": Q2 if src == "queue" else lst, "clear_source": TRUE if c else FALSE}, pre=pre2, queues=False, loop_k=6, yieldless=False, entry=fi, max_paths=20000):
                if p.raised:
                    ctx.check(p.outcome[1].name == "QueueFullError" or (src == "list" and c is True and p.outcome[1].name == "TypeError"), "extend", fi.qual, f"raises {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                    continue
                ns, err = links(p)
                seq = [p.heap.get((x, "component")) for x in ns]
                ctx.count("extensions")
                ctx.check(err is None and seq == un, "extend", fi.qual, f"of {a!r} with {b!r} gives {seq!r}", ctx.where(fi), pathstr(p))
                if src == "queue":
                    l2, err = links(p, Q2, h2, t2)
                    ctx.check([p.heap.get((x, "component")) for x in l2] == ([] if c is True else b), "extend", fi.qual, "the source is not cleared exactly when asked for", ctx.where(fi), pathstr(p))
    ctx.floor("derived queues", 30)
    ctx.floor("extensions", 6)
    # comparison of queues as sets
    for name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        fi = m.get("Queue." + name)
        if fi is None:
            continue
        want = {"__eq__": ("eq", ast.Eq), "__ne__": ("ne", ast.NotEq), "__lt__": ("lt", ast.Lt), "__le__": ("le", ast.LtE), "__gt__": ("gt", ast.Gt), "__ge__": ("ge", ast.GtE)}[name]
        used = {n.attr.strip("_") for f in m.all_funcs() if f is fi for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "operator"}
        if used:
            ctx.count("comparisons")
            ctx.check(used == {want[0]}, "set-comparison", fi.qual, f"compares with operator {used}", ctx.where(fi))


def items_of(p, t):
    while t.op == "pure" and t.a[0] == "list":
        t = t.a[1]
    if t.op in ("list", "tuple"):
        return list(t.a)
    r = p.heap.get((t, "#items"))
    return list(r.a) if r is not None else None
