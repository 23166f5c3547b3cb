"""Creation of objects: what is given goes to setup and to the process, once."""
import ast
import itertools
from lib.core import *
from . import prop
from .objmon import A

KW = mk("new", "dict", "keywords")
VA, VB = mk("sym", "value a"), mk("sym", "value b")
NAMES = {"a": VA, "b": VB}


def h_call(eng, st, recv, b, node, f2):
    st = eng.event(st, Ev("call", recv, f2.qual, args=b), node)
    return [(st, NONE)]


def h_greenlet(eng, st, recv, pos, kw, node):
    """what a greenlet runs when it is started"""
    f = pos[0] if pos else kw.get("run")
    st, t = eng.fresh("greenlet", st, node)
    runs = []
    if f is not None and f.op == "bound":
        runs.append((f.a[0], (f.a[1], tuple(f.a[2]))))
    elif f is not None:
        n0 = len(list(st.events()))
        for x, r in eng.call_term(f, [], {}, st.clone(), node):
            for e in list(x.events())[n0:]:
                if e.kind == "ucall":
                    runs.append((e.base, e.args))
    st = eng.event(st, Ev("greenlet", t, "greenlet", args=tuple(runs)), node)
    return [(st, t)]


def h_partial(eng, st, recv, pos, kw, node):
    """functools.partial: a call with the arguments already given"""
    return [(st, mk("bound", pos[0], tuple(pos[1:]), tuple(kw.items())))]


def pre(eng, st):
    st.heap[(KW, "#items")] = mk("list", *map(const, NAMES))
    for n, v in NAMES.items():
        st.heap[(KW, ("[]", const(n)))] = v
    return [st]


def kwdict(p, v):
    """{name: term} of the keywords of a call, None when not known"""
    if v is None or v is NONE:
        return {}
    if isinstance(v, dict):
        return v
    if v.op == "kwargs":
        return dict(v.a[0]) if v.a[1] is NONE else None
    ks = p.heap.get((v, "#items"))
    if ks is None:
        return None
    return {k.a[-1]: p.heap.get((v, ("[]", k))) for k in ks.a}


def ukw(p, args):
    """keywords of a call of something unknown"""
    pos, kw = args if args else ((), ())
    if pos:
        return None
    d = {}
    for k, v in kw:
        if k == "**":
            x = kwdict(p, v)
            if x is None:
                return None
            d.update(x)
        else:
            d[k] = v
    return d


def taken(p):
    """which keywords are parameters of the process, as tested on the path; None: not tested"""
    r = {}
    for f, v in p.facts.items():
        if f.op == "cmp" and f.a[0] == "in" and f.a[1].op == "const" and f.a[1].a[-1] in NAMES and "parameters" in repr(f.a[2]):
            r[f.a[1].a[-1]] = v
    return r


@prop("C42")
def c42(ctx):
    m = ctx.m
    common = dict(yieldless=None, queues=False, assume={"_animate": None}, pre=pre)
    # --- setup
    for cls in ("Monitor", "Queue", "Resource", "State", "Component"):
        fi = m.need(cls + ".__init__")
        su = m.method(cls, "setup")
        args = {fi.kwarg or "kwargs": KW}
        if cls == "Component":
            args["process"] = const("")
        h = {"_set_name": h_call, ctx.roles.reschedule.qual: h_call, su.qual: h_call, "_check_overlapping_parameters": h_call, "greenlet.greenlet": h_greenlet, "functools.partial": h_partial, "partial": h_partial}
        for p in ctx.paths(fi, key="create", args=args, entry=fi, extra_handlers=h, **common):
            if p.raised:
                continue
            hooks(ctx, p, cls, fi, su, NAMES)
    env = m.need("Environment.__init__")
    calls = [n for n in own_nodes(env.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setup" and isinstance(n.func.value, ast.Name) and n.func.value.id == env.posargs[0]]
    top = [s.value for s in env.node.body if isinstance(s, ast.Expr)]
    ctx.count("setups")
    ok = len(calls) == 1 and calls[0] in top and len(calls[0].keywords) == 1 and calls[0].keywords[0].arg is None and isinstance(calls[0].keywords[0].value, ast.Name) and calls[0].keywords[0].value.id == env.kwarg
    if len(calls) != 1 or calls[0] in top:
        ctx.check(ok, "setup-called", env.qual, "setup is not called once with what is left of the keywords", ctx.where(env))
    ctx.floor("setups", 20)
    # --- process
    comp = m.need("Component.__init__")
    act = m.need("Component.activate")
    for fi, process, yl in itertools.product((comp, act), ("default", "named"), (True, False)):
        args = {fi.kwarg or "kwargs": KW, "process": NONE if process == "default" else const("run_it")}
        for n in ("at", "mode", "delay", "urgent", "priority", "cap_now"):
            if fi is comp or n == "mode":
                args[n] = NONE
            elif n == "at":
                args[n] = NONE
        if fi is act:
            args.update(keep_request=FALSE, keep_wait=FALSE)
        h = {"_set_name": h_call, ctx.roles.reschedule.qual: h_call, "Component.setup": h_call, "_check_overlapping_parameters": h_call, "greenlet.greenlet": h_greenlet, "functools.partial": h_partial, "partial": h_partial, "Component._remove": h_call, "Component._check_fail": h_call, "Component.set_mode": h_call, "Environment.spec_to_duration": h_id, "Environment.spec_to_time": h_id}

        def pre2(eng, st, yl=yl, fi=fi, process=process):
            st.heap[(ENV, "_yieldless")] = TRUE if yl else FALSE
            return pre(eng, st)

        for p in ctx.paths(fi, key=f"process{process}{yl}", args=args, entry=fi, extra_handlers=h, yieldless=yl, queues=False, assume={"_animate": None}, pre=pre2):
            started(ctx, p, fi, process, yl)
    ctx.floor("processes", 12)
    # --- no process
    h = {"_set_name": h_call, ctx.roles.reschedule.qual: h_call, "Component.setup": h_call, "_check_overlapping_parameters": h_call, "greenlet.greenlet": h_greenlet, "functools.partial": h_partial, "partial": h_partial}
    for given in (None, "at", "delay", "urgent", "priority"):
        args = {comp.kwarg or "kwargs": KW, "process": const("")}
        for n in ("at", "delay", "urgent", "priority"):
            args[n] = NONE if n != given else TRUE if n == "urgent" else const(3)
        for p in ctx.paths(comp, key=f"data{given}", args=args, entry=comp, extra_handlers=h, **common):
            if p.raised and p.outcome[1].name != "TypeError":
                continue
            ctx.count("data components")
            if given:
                ctx.check(p.raised, "data-component", comp.qual, f"{given} is accepted for a data component", ctx.where(comp), pathstr(p))
            else:
                on = [e for e in p.events if e.kind == "call" and e.name == ctx.roles.reschedule.qual or e.kind == "greenlet"]
                ctx.check(not p.raised and not on and p.heap.get((SELF, "_process")) is NONE, "data-component", comp.qual, "a component without process is started or refused", ctx.where(comp), pathstr(p))
    ctx.floor("data components", 5)
    # --- normal functions as process in a model with yields
    for f in m.all_funcs():
        if f in (comp, act):
            continue
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_process":
                ctx.count("process calls")
                kws = [k.value for k in n.keywords if k.arg is None]
                ok = not n.args and len(kws) == len(n.keywords) == 1 and (not isinstance(kws[0], ast.Attribute) or kws[0].attr == "_process_kwargs" and ast.dump(kws[0].value) == ast.dump(n.func.value))
                ctx.check(ok, "process-arguments", f.qual, "a process is called without its arguments", ctx.where(f, n.lineno))
    overlap(ctx)


def h_id(eng, st, recv, b, node, fi):
    return [(st, b.get(fi.posargs[1]))]


def hooks(ctx, p, cls, fi, su, want):
    where, ps = ctx.where(fi), pathstr(p)
    evs = list(p.events)
    hs = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and e.name == su.qual and e.base is SELF]
    ctx.count("setups")
    if not ctx.check(len(hs) == 1, "setup-called", fi.qual, f"setup is called {len(hs)} times", where, ps):
        return
    i, e = hs[0]
    got = kwdict(p, e.args.get(su.kwarg or "kwargs"))
    ctx.check(got == want, "setup-arguments", fi.qual, f"setup is called with {got!r}, {want!r} required", where, ps)
    late = sorted({x.name for x in evs[i + 1:] if x.kind == "write" and x.base is SELF})
    ctx.check(not late, "setup-last", fi.qual, f"{', '.join(late)} set after setup was called: setup cannot use or override them", where, ps)


def started(ctx, p, fi, process, yl):
    m = ctx.m
    where, ps = ctx.where(fi), pathstr(p)
    new = fi.name == "__init__"
    name = "process" if process == "default" else "run_it"
    what = f"{fi.qual} ({'yieldless' if yl else 'yield'}, {process} process)"
    # is there a process at all
    P = [A(SELF, name), mk("pure", "getattr", SELF, const(name)), mk("attr", SELF, name)]
    gen = None
    for f, v in p.facts.items():
        if "isgeneratorfunction" in repr(f):
            gen = v
    tk = taken(p)
    if p.raised:
        n = p.outcome[1].name
        if n == "ValueError" and gen is not None:
            ok = gen is True and yl or gen is False and not yl
            ctx.check(ok, "process-kind", what, "a process of the right kind is refused", where, ps)
        elif n == "TypeError" and not new:
            ctx.check(any(v is False for v in tk.values()), "process-arguments", what, "keywords that are parameters of the process are refused", where, ps)
        return
    ws = [e for e in p.events if e.kind == "write" and e.base is SELF and e.name == "_process" and e.value is not NONE]
    if not ws:
        return  # data component, or the process goes on
    ctx.count("processes")
    ctx.check(gen is not None and (gen is not True or not yl), "process-kind", what, "a generator is accepted as process in a yieldless model", where, ps)
    iso = p.heap.get((SELF, "_process_isgenerator"))
    ctx.check(iso is (TRUE if gen else FALSE), "process-kind", what, f"a {'generator' if gen else 'normal'} process is marked {iso!r}", where, ps)
    if new:
        want = {n: v for n, v in NAMES.items() if tk.get(n) is True}
        left = {n: v for n, v in NAMES.items() if tk.get(n) is not True}
        hooks(ctx, p, "Component", fi, m.method("Component", "setup"), left)
    else:
        want = dict(NAMES)
        ctx.check(all(tk.get(n) is True for n in NAMES), "process-arguments", what, "keywords are handed to a process of which they are not parameters", where, ps)
    v = p.heap.get((SELF, "_process"))
    if gen:
        cs = [e for e in p.events if e.kind == "ucall" and e.base in P]
        if not ctx.check(len(cs) == 1 and p.heap.get((SELF, "_process")).op in ("app", "res", "new", "sym"), "process-started", what, f"the process is created {len(cs)} times", where, ps):
            return
        got = ukw(p, cs[0].args)
    else:
        ctx.check(v in P, "process-started", what, f"the process is {v!r}", where, ps)
        got = kwdict(p, p.heap.get((SELF, "_process_kwargs")))
    ctx.check(got == want, "process-arguments", what, f"the process gets {got!r}, {want!r} required", where, ps)
    gs = [e for e in p.events if e.kind == "greenlet"]
    if yl:
        if ctx.check(len(gs) == 1 and p.heap.get((SELF, "_glet")) is gs[0].base, "process-started", what, f"{len(gs)} threads of control are made", where, ps):
            runs = gs[0].args
            ok = len(runs) == 1 and (runs[0][0] in P or runs[0][0] is v)
            ctx.check(ok, "process-started", what, f"the thread of control runs {[r[0] for r in runs]!r}", where, ps)
            if ok:
                got = ukw(p, runs[0][1])
                ctx.check(got == want, "process-arguments", what, f"the process gets {got!r}, {want!r} required", where, ps)
    ctx.check(sum(1 for e in p.events if e.kind == "call" and e.name == ctx.roles.reschedule.qual) == 1, "process-started", what, "a component with a new process is not scheduled once", where, ps)
    if new:
        pairs = []
        for e in p.events:
            if e.kind == "call" and e.name == "_check_overlapping_parameters":
                a = e.args
                pairs.append((a.get("method_name0"), a.get("method_name1")))
        for q in ((const("__init__"), const("setup")), (const("__init__"), const(name)), (const("setup"), const(name))):
            ctx.check(q in pairs or (q[1], q[0]) in pairs, "overlap-refused", what, f"parameters of {q[0]!r} and {q[1]!r} may be the same", where, ps)


def overlap(ctx):
    """a parameter that occurs twice is refused"""
    fi = ctx.m.get("_check_overlapping_parameters")
    if fi is None:
        return
    ret = ras = 0
    for p in ctx.paths(fi, key="overlap", yieldless=None):
        ctx.count("overlaps")
        if p.raised:
            ras += 1
            ctx.check(p.outcome[1].name == "TypeError", "overlap-refused", fi.qual, f"raises {p.outcome[1].name}", ctx.where(fi), pathstr(p))
        else:
            ret += 1
    ctx.check(ras > 0, "overlap-refused", fi.qual, "overlapping parameters are never refused", ctx.where(fi))
    ctx.check(ret > 0, "overlap-refused", fi.qual, "parameters are always refused", ctx.where(fi))
