"""Shared context for the rules: roles, primitive summaries, path cache, findings."""
import ast
import sys
import time
from . import terms as tm
from .terms import mk, const, TRUE, FALSE, NONE, INF
from .model import Model, AnalysisBroken, own_nodes
from .engine import and_facts as _and_facts, Engine, Ev, ENV, STR, Raise, Path, decide, cmp_lt, cmp_eq, truth, neg, Truncated, St

sys.setrecursionlimit(20000)

SELF = mk("sym", "self")
NOW = mk("attr", ENV, "_now")
OFFSET = mk("attr", ENV, "_offset")
EVENT_LIST = mk("attr", ENV, "_event_list")


class Finding:
    def __init__(self, rule, construct, msg, where, path=None):
        self.rule = rule
        self.construct = construct
        self.msg = msg
        self.where = where
        self.path = path

    @property
    def key(self):
        return f"{self.rule} @ {self.construct}"

    def text(self):
        s = f"[{self.rule}] {self.construct}: {self.msg} ({self.where})"
        if self.path:
            s += "\n      path: " + self.path
        return s


class Ctx:
    def __init__(self, prop, tier="quick", repo=None):
        self.prop = prop
        self.tier = tier
        self.m = Model(repo)
        self.findings = []
        self.counts = {}
        self.samples = []
        self.analysed = set()
        self.truncated = []
        self._cache = {}
        self.roles = Roles(self.m)
        self.obligations = 0
        self.discharged = 0
        self.npaths = 0
        self.floors = {}

    # --- bookkeeping
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        """the rule must have at least n instances, as confirmed by hand on the reference tree"""
        self.floors[what] = max(1, n // 2)  # a refactoring may merge paths

    def ok(self, rule, n=1):
        self.obligations += n
        self.discharged += n
        self.count("obligations:" + rule, n)

    def fail(self, rule, construct, msg, where, path=None):
        self.obligations += 1
        self.count("obligations:" + rule)
        f = Finding(rule, construct, msg, where, path)
        if f.key not in {x.key for x in self.findings}:
            self.findings.append(f)

    def check(self, cond, rule, construct, msg, where, path=None):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, construct, msg, where, path)
        return cond

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def where(self, fi, line=None):
        return f"{fi.module}:{line or fi.node.lineno} {fi.qual}"

    # --- running the engine
    def paths(self, fi, key="core", args=None, cls=None, pre=None, on_yield=None, **kw):
        ck = (fi.qual, key, tuple(sorted(args.items(), key=lambda x: x[0])) if args else None, cls)
        if ck in self._cache:
            return self._cache[ck]
        e = self.engine(**kw)
        e.on_yield = on_yield
        try:
            ps = e.run(fi, args=args, cls=cls, pre=pre)
        except Truncated:
            # fall back to the coarsest loop bound
            kw2 = dict(kw)
            kw2["loop_k"] = 1
            kw2["max_depth"] = 3
            kw2["max_paths"] = 20000
            e = self.engine(**kw2)
            e.on_yield = on_yield
            try:
                ps = e.run(fi, args=args, cls=cls, pre=pre)
            except Truncated:
                self.truncated.append(fi.qual)
                ps = []
        ps = [p for p in ps if consistent(p.facts)]
        self.analysed.add(fi.qual)
        self.analysed |= e.inlined_funcs
        self.npaths += len(ps)
        self._cache[ck] = ps
        return ps

    def engine(self, yieldless=True, trace=False, prims=None, handlers=None, queues=True, loop_k=None, extra_handlers=None, entry=None, **kw):
        h = base_handlers(self, queues=queues) if handlers is None else dict(handlers)
        if extra_handlers:
            h.update(extra_handlers)
        if entry is not None:
            h.pop(entry.qual, None)
        h = {k: v for k, v in h.items() if v is not None}
        a = {"_trace": trace if trace is not None else None, "_yieldless": yieldless, "_ui": False, "PyPy": False, "Pythonista": False}
        if "assume" in kw:
            a.update(kw.pop("assume"))
        if loop_k is None:
            loop_k = 1 if self.tier == "quick" else 2
        return Engine(self.m, primitives=prims or (), handlers=h, assume=a, loop_k=loop_k, **kw)


class Roles:
    """private helpers identified by what they do, so that renaming them does not matter"""

    def __init__(self, m):
        self.m = m
        comp = m.classes.get("Component")
        if comp is None:
            raise AnalysisBroken("class Component not found")
        self.check_fail = self._pick("Component", "_check_fail", lambda f: self._writes_const(f, "_failed", True) and len(f.posargs) == 1)
        self.remove = self._pick("Component", "_remove", lambda f: self._writes_const(f, "_on_event_list", False) and len(f.posargs) == 1)
        self.push = self._pick("Component", "_push", lambda f: self._calls(f, "heappush"))
        self.reschedule = self._pick("Component", "_reschedule", lambda f: self._writes(f, "_scheduled_time") and "cap_now" in f.posargs and "return_value" in f.posargs)
        self.comp_tryrequest = self._pick("Component", "_tryrequest", lambda f: self._writes(f, "_claimed_quantity") and self._writes(f, "_requests") and not self._writes_const(f, "_failed", True))
        self.release1 = self._pick("Component", "_release", lambda f: self._writes(f, "_claimed_quantity") and self._dels(f, "_claims"))
        self.res_tryrequest = self._pick("Resource", "_tryrequest", lambda f: self._writes(f, "_trying"))
        self.state_trywait = self._pick("State", "_trywait", lambda f: "max" in f.posargs)
        self.comp_trywait = self._pick("Component", "_trywait", lambda f: self._loads(f, "_wait_all") and self._writes(f, "_waits"))
        self.terminate = self._pick("Environment", "_terminate", lambda f: len(f.posargs) == 2 and self._loads(f, "_claims") and self._writes(f, "_process"))

    def _pick(self, cls, name, pred):
        c = self.m.classes.get(cls)
        if c is None:
            return None
        if name in c.methods:
            return c.methods[name]
        cand = [f for f in c.methods.values() if pred(f)]
        return cand[0] if len(cand) == 1 else None

    def _writes(self, f, attr):
        return attr in self.m.direct_writes(f.node)

    def _loads(self, f, attr):
        return any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(f.node))

    def _calls(self, f, nm):
        return any(isinstance(n, ast.Call) and ((isinstance(n.func, ast.Attribute) and n.func.attr == nm) or (isinstance(n.func, ast.Name) and n.func.id == nm)) for n in ast.walk(f.node))

    def _writes_const(self, f, attr, val):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is val:
                if any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
                    return True
        return False

    def _dels(self, f, attr):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Delete) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop"):
                if any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(n)):
                    return True
        return False


# ------------------------------------------------------------------ primitive summaries
def h_tally(eng, st, recv, b, node, fi):
    v = b.get("value")
    st = eng.event(st, Ev("tally", recv, "tally", v, args=b), node)
    st.heap[(recv, "_tally")] = v
    return [(st, NONE)]


def h_tally_status(eng, st, recv, b, node, fi):
    """only the status is followed"""
    if is_attr(recv, "status") or (recv.op == "new" and recv.a[0] == "_StatusMonitor"):
        return h_tally(eng, st, recv, b, node, fi)
    return [(st, NONE)]


def _bumpq(st, q):
    st.uniq += 1
    st.epoch[("Q", q)] = st.uniq


def _enter(eng, st, comp, q, prio, node, how, extra=None):
    st = eng.event(st, Ev("enter", comp, how, q, args=prio, extra=extra), node)
    st.heap[(q, "_length")] = tm.add(eng.rd(q, "_length", st), const(1))
    st.heap[(q, ("in", comp))] = TRUE
    _bumpq(st, q)
    return st


def h_enter(eng, st, recv, b, node, fi):
    st = _enter(eng, st, recv, b["q"], b.get("priority", NONE), node, fi.name)
    return [(st, recv)]


def h_insert(eng, st, recv, b, node, fi):
    vals = list(b.values())
    d = {k: v for k, v in b.items()}
    q, c, p, m2 = d.get("q"), d.get("c"), d.get("priority"), d.get("m2")
    if q is None or c is None:
        return None
    st = _enter(eng, st, c, q, p, node, "insert", extra=m2)
    return [(st, NONE)]


def h_leave(eng, st, recv, b, node, fi):
    q = b.get("q", NONE)
    if q is NONE:
        st = eng.event(st, Ev("leave", recv, "all", NONE), node)
        return [(st, recv)]
    st = eng.event(st, Ev("leave", recv, "leave", q), node)
    st.heap[(q, "_length")] = tm.sub(eng.rd(q, "_length", st), const(1))
    st.heap[(q, ("in", recv))] = FALSE
    _bumpq(st, q)
    return [(st, recv)]


def h_qremove(eng, st, recv, b, node, fi):
    c = b.get("component", NONE)
    if c is NONE:
        st = eng.event(st, Ev("leave", mk("sym", "<members>"), "clear", recv), node)
        return [(st, recv)]
    st = eng.event(st, Ev("leave", c, "leave", recv), node)
    st.heap[(recv, "_length")] = tm.sub(eng.rd(recv, "_length", st), const(1))
    st.heap[(recv, ("in", c))] = FALSE
    _bumpq(st, recv)
    return [(st, recv)]


def h_switch(eng, st, recv, pos, kw, node):
    if recv.op == "attr" and recv.a[1] == "_glet":
        st = eng.event(st, Ev("switch", recv, "switch", args=tuple(pos)), node)
        # arbitrary simulation code runs while this component is suspended
        st.uniq += 1
        st.epoch["*"] = st.uniq
        for k in list(st.heap):
            st.heap.pop(k) if not (k[0].op == "new") else None
        return [(st, NONE)]
    return None


def h_heappush(eng, st, recv, pos, kw, node):
    if len(pos) == 2:
        st = eng.event(st, Ev("push", pos[0], "heappush", pos[1]), node)
        return [(st, NONE)]
    return None


def h_heappop(eng, st, recv, pos, kw, node):
    if len(pos) == 1:
        st = eng.event(st, Ev("pop", pos[0], "heappop"), node)
        st.uniq += 1
        return [(st, mk("popped", pos[0], st.uniq))]
    return None


def h_heapify(eng, st, recv, pos, kw, node):
    st = eng.event(st, Ev("heapify", pos[0], "heapify"), node)
    return [(st, NONE)]


def h_pure(name):
    def h(eng, st, recv, b, node, fi):
        args = [v for k, v in b.items() if k != "self"]
        return [(st, mk("pure", name, *args))]

    return h


def h_conv(name):
    """conversion of a specification of a time or a duration"""

    def h(eng, st, recv, b, node, fi):
        args = [v for k, v in b.items() if k != "self"]
        st = eng.event(st, Ev("conv", recv, name, value=args[0] if args else None), node)
        return [(st, NONE if args and args[0] is NONE else mk("pure", name, *args))]

    return h


def h_noop(kind):
    def h(eng, st, recv, b, node, fi):
        st = eng.event(st, Ev("note", recv, kind, args=b), node)
        return [(st, NONE)]

    return h


def h_skip(eng, st, recv, b, node, fi):
    return [(st, NONE)]


def h_remove(eng, st, recv, b, node, fi):
    st = eng.event(st, Ev("remove", recv, fi.name), node)
    st.heap[(recv, "_on_event_list")] = FALSE
    return [(st, NONE)]


PENDING = ("_requests", "_waits", "_from_stores", "_to_stores")


def h_check_fail(eng, st, recv, b, node, fi):
    st = eng.event(st, Ev("check_fail", recv, fi.name), node)
    for a in PENDING:
        st, t = eng.fresh("list", st, node)
        st.heap[(t, "#items")] = mk("list")
        st.heap[(recv, a)] = t
    st.uniq += 1
    st.heap[(recv, "_failed")] = mk("sym", f"<failed#{st.uniq}>")
    return [(st, NONE)]


def h_try(attr):
    """summary of the attempt to honor a pending request/wait of a component (verified by its own rules):
    either nothing changes and False is returned, or the pending list is emptied, the component is scheduled and True is returned"""

    def h(eng, st, recv, b, node, fi):
        st = eng.event(st, Ev("try", recv, fi.qual), node)
        no = st.clone()
        yes = st.clone()
        yes = eng.event(yes, Ev("honored", recv, fi.qual), node)
        yes, t = eng.fresh("list", yes, node)
        yes.heap[(t, "#items")] = mk("list")
        yes.heap[(recv, attr)] = t
        yes.heap[(mk("attr", recv, "status"), "_tally")] = const("scheduled")
        return [(yes, TRUE), (no, FALSE)]

    return h


def h_call(eng, st, recv, b, node, fi):
    st = eng.event(st, Ev("call", recv, fi.qual, args=b), node)
    eng.havoc(st, eng.m.summaries().get(fi.qual, ()))
    st.uniq += 1
    return [(st, mk("res", st.uniq, eng._rettype(fi), fi.qual))]


def base_handlers(ctx, queues=True):
    r = ctx.roles
    h = {
        "Monitor.tally": h_tally,
        ".switch": h_switch,
        "heapq.heappush": h_heappush,
        "heapq.heappop": h_heappop,
        "heapq.heapify": h_heapify,
        "heappush": h_heappush,
        "heappop": h_heappop,
        "heapify": h_heapify,
        "Environment.spec_to_time": h_conv("to_time"),
        "Environment.spec_to_duration": h_conv("to_duration"),
        "Component.set_mode": h_noop("set_mode"),
        "Component.remove_animation_children": h_skip,
        "_check_overlapping_parameters": h_skip,
        "_set_name": h_skip,
        "Environment.print_trace": h_skip,
    }
    if queues:
        h.update(
            {
                "Component.enter": h_enter,
                "Component.enter_sorted": h_enter,
                "Component.enter_at_head": h_enter,
                "Component.enter_in_front_of": h_enter,
                "Component.enter_behind": h_enter,
                "Qmember.insert_in_front_of": h_insert,
                "Component.leave": h_leave,
                "Queue.remove": h_qremove,
            }
        )
    if r.comp_tryrequest:
        h[r.comp_tryrequest.qual] = h_try("_requests")
    if r.comp_trywait:
        h[r.comp_trywait.qual] = h_try("_waits")
    for x in (r.res_tryrequest, r.state_trywait, r.terminate):
        if x:
            h[x.qual] = h_call
    for x in ("Environment.step", "Environment.do_simulate", "Environment.do_simulate_and_animate", "Environment.quit", "Environment.video_close", "Store.rescan"):
        h[x] = h_call
    if r.remove:
        h[r.remove.qual] = h_remove
    if r.check_fail:
        h[r.check_fail.qual] = h_check_fail
    return h


# ------------------------------------------------------------------ helpers on paths
class FactState:
    """adapter so that decide() can be used on recorded facts"""

    def __init__(self, facts):
        self.facts = facts
        self.iv = {}
        from .engine import _iv_add

        for x, v in facts.items():
            if x.op == "cmp" and x.a[0] in ("lt", "le"):
                r = _iv_add(self.iv, x, v)
                if r is not None:
                    self.iv = r


def implied(facts, lit):
    """True when lit is implied by the facts, False when its negation is, else None"""
    return decide(FactState(facts), lit)


def ge(facts, a, b):
    """facts imply a >= b"""
    return implied(facts, cmp_lt(a, b)) is False


def status_of(x):
    return mk("attr", mk("attr", x, "status"), "_tally")


def assume(st, a, v):
    if a.op == "not":
        a, v = a.a[0], not v
    if a is TRUE or a is FALSE:
        return [st] if (a is TRUE) == v else []
    r = _and_facts(st, a, v)
    return [] if r is None else [r]


def classes(facts):
    """(representative of a term under the equalities of the path, the inequalities)"""
    up = {}

    def find(t):
        while t in up:
            t = up[t]
        return t

    ne = []
    for f, v in facts.items():
        if f.op == "cmp" and f.a[0] == "eq":
            if v:
                a, b = find(f.a[1]), find(f.a[2])
                if a is not b:
                    up[a] = b
            else:
                ne.append(f)
    return find, ne, bool(up)


def consistent(facts):
    """equality is transitive: no two terms that are equal by a chain are said to differ"""
    find, ne, any_eq = classes(facts)
    return not any_eq or all(find(f.a[1]) is not find(f.a[2]) for f in ne)


def chain_equal(facts, a, b):
    find = classes(facts)[0]
    return find(a) is find(b)


def pathstr(p, limit=16):
    f = [("" if v else "not ") + repr(k) for k, v in p.facts.items() if "inf" not in repr(k) and "Number" not in repr(k)]
    if len(f) > limit:
        f = f[: limit // 2] + ["..."] + f[-limit // 2:]
    return " & ".join(f)[:900] + f" => {p.outcome!r}"[:120]


def strip_epoch(t):
    """attribute term without its version"""
    return t


def base_attr(t):
    """(base, name) of an attribute value number, any version"""
    if t.op == "attr":
        return t.a[0], t.a[1]
    return None, None


def is_attr(t, name, base=None):
    return t.op == "attr" and t.a[1] == name and (base is None or t.a[0] is base)


def subterms(t, seen=None):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tm.T) or x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.a:
            if isinstance(a, tm.T):
                st.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, tm.T):
                        st.append(b)
                    elif isinstance(b, tuple):
                        st.extend(z for z in b if isinstance(z, tm.T))
