"""Looking at a model, tracing it and animating it do not change it.

Two analyses. (1) A call-graph effect analysis (lib/effects.py): from every query, print and drawing function, no write
to simulation state is reachable; the state is what the scheduling, queue, resource, state, store and monitor operations
of this very source write. (2) Every function that reads the trace (or animate) switch is followed on all paths twice,
with the switch on and off: for each path with the switch on there is one under the same conditions with it off that
makes the same changes and calls, and the other way round. Functions that do not read the switch cannot depend on it
other than through those that do."""
import re
from lib.core import *
from lib.effects import Effects, param_consts
from . import prop

CORE = (
    "Component.activate Component.hold Component.passivate Component.interrupt Component.resume Component.cancel Component.standby Component.request "
    "Component.release Component.wait Component.from_store Component.to_store Component.wait_for Component.enter Component.leave Component.priority "
    "Environment.step Environment.run Environment.reset_now Monitor.tally Monitor.reset Monitor.monitor State.set State.trigger Resource.set_capacity "
    "Resource.release Queue.set_capacity Queue.clear Queue.move Component.enter_at_head Queue.insert Component.set_mode Store.rescan"
).split()

LOOK = {
    "Component": "__repr__ base_name claimed_quantity claimed_resources count creation_time enter_time failed from_store_item from_store_store index interrupt_level interrupted_status "
    "isbumped isclaiming iscurrent isdata isinterrupted ispassive isrequesting isscheduled isstandby iswaiting mode_time name predecessor print_info priority queues remaining_duration "
    "requested_quantity requested_resources running_process scheduled_priority scheduled_time sequence_number skip_standby successor suppress_pause_at_step suppress_trace "
    "to_store_requesters to_store_store line_number lineno_txt",
    "Queue": "__contains__ __eq__ __ge__ __getitem__ __gt__ __hash__ __iter__ __le__ __len__ __lt__ __ne__ __repr__ __reversed__ all_monitors arrival_rate as_list as_set base_name "
    "component_with_name count departure_rate head index name predecessor print_histograms print_info print_statistics sequence_number successor tail",
    "Store": "from_store_requesters to_store_requesters print_info print_statistics print_histograms",
    "Monitor": "__call__ __eq__ __repr__ as_dataframe as_resampled_dataframe base_name bin_duration bin_number_of_entries bin_weight duration duration_zero get histogram_autoscale "
    "maximum mean median minimum name number_of_entries number_of_entries_zero percentile print_histogram print_histograms print_statistics sequence_number start_time std t tx "
    "value_duration value_number_of_entries value_weight values weight weight_zero x xduration xt xweight",
    "Resource": "__repr__ all_monitors base_name claimers ispreemptive name print_histograms print_info print_statistics requesters sequence_number",
    "State": "__call__ __repr__ all_monitors base_name get name print_histograms print_info print_statistics sequence_number waiters",
    "Environment": "__repr__ base_name current_component datetime_to_t days duration_to_str duration_to_timedelta get_time_unit hours main microseconds milliseconds minutes name now "
    "peek print_info print_trace print_trace_header seconds sequence_number spec_to_duration spec_to_time t t_to_datetime time_to_str timedelta_to_duration to_days to_hours "
    "to_microseconds to_milliseconds to_minutes to_seconds to_time_unit to_weeks to_years trace weeks years",
    "ComponentGenerator": "print_info",
    "PeriodMonitor": "__getitem__",
}
# bookkeeping of looking itself
OWN = {"cached_xweight", "_iter_touched", "_iter_sequence", "_buffered_trace", "last_s0", "_source_files"}
NAMES = {"start", "running"}  # also names of attributes of audio and animation objects


LOOP = (
    "simulate_and_animate_loop do_simulate_and_animate do_simulate paused snapshot an_go an_menu an_half an_double an_single_step animation_pre_tick animation_pre_tick_sys "
    "animation_post_tick _save_frame _capture_image insert_frame is_videoing an_trace an_synced set_start_animation"
).split()


def state_attrs(ctx):
    E = Effects(ctx.m, glob={"._animate": False, "._animate3d": False, "._ui": False, "Pythonista": False, "._stats_only": False}, opaque={"Environment.quit", "Environment.video_close", "Component.remove_animation_children"})
    ent = []
    for q in CORE:
        fi = ctx.m.get(q)
        if fi is not None:
            ent.append((fi, fi.cls, {}, False))
    ctx.count("operations", len(ent))
    ctx.floor("operations", len(CORE))
    W = {e.attr for e, _ in E.reach(ent)} - OWN - NAMES - {"_trace"}
    ctx.count("state attributes", len(W))
    ctx.floor("state attributes", 50)
    return W | {"#random"}


def judge(ctx, rule, what, E, entries, W, allow=()):
    fi = entries[0][0]
    res = E.reach(entries)
    seen = set()
    for e, chain in res:
        if e.attr not in W or e.attr in allow or (e.attr == "_t" and e.base == "Environment"):
            continue
        if e.attr in seen:
            continue
        seen.add(e.attr)
        w = f"random numbers from {e.base}" if e.attr == "#random" else f"{e.base}.{e.attr}"
        ctx.fail(rule, what, f"{e.how} {w} in {e.fi.qual}", ctx.where(e.fi, e.line), " -> ".join(chain))
    ctx.analysed |= E.nfuncs
    ctx.count("functions reachable", len(E.nfuncs))
    if not seen:
        ctx.ok(rule)


# ---- the switch


OWNTRACE = {"Environment.trace", "Environment.suppress_trace", "Environment.an_trace", "Environment.tracetext", "Environment.print_trace", "Environment.print_info", "Environment.__init__"}
TEXT = set(dir(str)) - set(dir(object))


def parts_of(ctx, own):
    """own, and the functions that are called by these only"""
    own = set(own)
    users = {}
    for f in ctx.m.all_funcs():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute):
                users.setdefault(n.attr, set()).add(f.qual)
            elif isinstance(n, ast.Name):
                users.setdefault(n.id, set()).add(f.qual)
    while True:
        new = {f.qual for f in ctx.m.all_funcs() if f.qual not in own and users.get(f.name) and users[f.name] <= own | {f.qual}}
        if not new:
            return own
        own |= new


def signature(p, pure, ignore):
    out = []
    for e in p.events:
        if e.kind == "write" and e.name in ignore:
            continue
        if e.kind == "call" and (e.name in pure or e.name.split(".")[-1] in pure):
            continue
        if e.kind in ("mut", "setitem", "delitem") and e.base is not None and e.base.op == "attr" and e.base.a[1] in ignore:
            continue
        if e.kind in ("except", "yield") or e.kind == "ucall" and e.base is not None and e.base.op == "glob":
            continue
        if e.kind == "ucall" and e.base is not None and e.base.op == "attr" and e.base.a[1] in TEXT:
            continue
        out.append((e.kind, e.name, clean(e.base), clean(e.value) if e.kind in ("write", "tally", "push") else ""))
    oc = p.outcome
    return tuple(out), (oc[0], oc[1].name if oc[0] == "raise" else clean(oc[1]))


def clean(t):
    return re.sub(r"#?\d+", "", repr(t)) if t is not None else ""


def compatible(p, q):
    for f, v in p.facts.items():
        if f in q.facts and q.facts[f] != v and "<" not in repr(f):
            return False
    return True


def predicates(ctx, attr):
    """functions that only return a condition on the switch: they are looked through"""
    out = {}
    for f in readers(ctx, attr):
        body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and f.name.startswith("_") and not any(isinstance(x, ast.Call) for x in ast.walk(body[0])):
            out[f.qual] = f
    return out


def switch(ctx, attr, funcs, pure, ignore, label, failing=True):
    n = 0
    preds = predicates(ctx, attr)
    names = {f.name for f in preds.values()}
    if names:
        funcs = [f for f in funcs if f.qual not in preds]
        have = {f.qual for f in funcs} | set(preds) | ({"Environment.__init__"} | parts_of(ctx, OWNTRACE) if attr == "_trace" else set())
        for f in ctx.m.all_funcs():
            if f.qual not in have and attr == "_trace" and any(isinstance(x, ast.Attribute) and x.attr in names or isinstance(x, ast.Name) and x.id in names for x in own_nodes(f.node)):
                funcs.append(f)
    for fi in funcs:
        if fi.is_generator:
            continue
        runs = []
        before = list(ctx.truncated)
        for args in (None, defaults(fi)):
            runs = []
            for v in (True, False):
                e = ctx.engine(handlers={}, max_depth=2 if preds else 0, only_inline=lambda f: f.qual in preds, yieldless=None, assume={attr: v, "_ui": False}, max_paths=2500)
                e.on_yield = None
                try:
                    runs.append(e.run(fi, args=args))
                except Truncated:
                    runs.append([])
                    break
            if all(runs):
                break
        if not all(runs):
            ctx.count("not decided: " + fi.qual)
            continue
        ctx.analysed.add(fi.qual)
        ctx.npaths += len(runs[0]) + len(runs[1])
        n += 1
        sig = [[(p, signature(p, pure, ignore)) for p in ps] for ps in runs]
        for a, b, which in ((sig[0], sig[1], "on"), (sig[1], sig[0], "off")):
            idx = {}
            for q, s in b:
                idx.setdefault(s, []).append(q)
            for p, s in a:
                if p.raised and not failing:
                    continue
                ctx.count("paths compared")
                ok = any(compatible(p, q) for q in idx.get(s, ()))
                if ok:
                    ctx.ok(label + "-changes-nothing")
                    continue
                # report the first difference with the closest one
                near = max((q for q in b if compatible(p, q[0])), key=lambda q: len(set(q[1][0]) & set(s[0])), default=None)
                diff = ""
                if near is not None:
                    x = [e for e in s[0] if e not in near[1][0]]
                    y = [e for e in near[1][0] if e not in s[0]]
                    diff = f"; only {which}: {x[:2]}, only otherwise: {y[:2]}, outcome {s[1]} and {near[1][1]}"
                ctx.fail(label + "-changes-nothing", fi.qual, f"with {label} {which} the function does something that it does not do otherwise{diff}", ctx.where(fi), pathstr(p))
                break
    ctx.count(f"functions that read {attr}", n)
    return n


def defaults(fi):
    """optional arguments at their (constant) defaults"""
    out = {}
    for p, d in fi.defaults.items():
        if isinstance(d, ast.Constant):
            out[p] = const(d.value) if d.value not in (None, True, False) or isinstance(d.value, (int, float)) and not isinstance(d.value, bool) else {None: NONE, True: TRUE, False: FALSE}[d.value]
    return out


def readers(ctx, attr):
    out = []
    for f in ctx.m.all_funcs():
        if any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load) for n in own_nodes(f.node)):
            out.append(f)
    return out


@prop("C22")
def c22(ctx):
    m = ctx.m
    W = state_attrs(ctx)
    E = Effects(m, glob={"._animate": False, "Pythonista": False, "._stats_only": False})
    for cls, names in LOOK.items():
        for n in names.split():
            fi = m.method(cls, n)
            if fi is None:
                continue
            ctx.count("queries")
            judge(ctx, "looking-changes-nothing", f"{cls}.{n}", E, [(fi, cls, param_consts(fi, fi.node), False)], W)
    for cls in m.subclasses("_Distribution"):
        for n in ("mean", "print_info", "__repr__"):
            fi = m.classes[cls].methods.get(n)
            if fi is not None:
                ctx.count("queries")
                judge(ctx, "looking-changes-nothing", f"{cls}.{n}", E, [(fi, cls, param_consts(fi, fi.node), False)], W)
    ctx.floor("queries", 200)
    # tracing
    pt = m.need("Environment.print_trace")
    judge(ctx, "tracing-changes-nothing", pt.qual, E, [(pt, "Environment", {}, False)], W)
    pure = pure_names(ctx, E, W)
    own = parts_of(ctx, OWNTRACE)
    n = switch(ctx, "_trace", [f for f in readers(ctx, "_trace") if f.qual not in own], pure, OWN | {"_trace", "_step_trace"}, "tracing")
    ctx.floor("functions that read _trace", 20)
    ctx.floor("paths compared", 200)


def pure_names(ctx, E, W):
    """functions that write no state"""
    fs = [f for f in ctx.m.all_funcs() if not f.name.startswith("__")]
    return {f.qual for f in fs} - E.impure(fs, W)


@prop("C30")
def c30(ctx):
    m = ctx.m
    W = state_attrs(ctx)
    E = Effects(m, glob={"Pythonista": False, "._stats_only": False}, opaque=("State.set",))
    cl = [c for c in m.classes if any(x in m.mro(c) for x in ("Animate2dBase", "Animate3dBase", "AnimateClassic")) or c in ("AnimateMonitor", "AnimateQueue", "Animate3dQueue", "AnimateButton", "AnimateEntry", "AnimateSlider", "AnimateCombined", "Animate")]
    ctx.count("animation classes", len(cl))
    ctx.floor("animation classes", 20)
    for c in cl:
        for n, fi in sorted(m.classes[c].methods.items()):
            if n in ("width", "height", "visible", "process"):
                continue
            ctx.count("animation functions")
            judge(ctx, "drawing-changes-nothing", fi.qual, E, [(fi, c, {}, n == "__init__")], W)
    ctx.floor("animation functions", 250)
    # the animation loop: changes the model by taking steps only
    L = Effects(m, glob={"Pythonista": False, "._stats_only": False, "._ui": False}, opaque=("State.set", "Environment.step", "Environment.animation_parameters", "Environment.video_close", "Environment.quit"))
    for q in LOOP:
        fi = m.get("Environment." + q)
        if fi is None:
            continue
        ctx.count("functions of the animation loop")
        judge(ctx, "drawing-changes-nothing", fi.qual, L, [(fi, "Environment", {}, False)], W)
    ctx.floor("functions of the animation loop", 16)
    pure = pure_names(ctx, E, W) | {"Environment.set_start_animation", "Environment.paused"}
    ign = {n.attr for f in m.all_funcs() for n in own_nodes(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} - W
    switch(ctx, "_animate", [m.need("Environment.step")], pure, ign, "animation", failing=False)
    ctx.floor("functions that read _animate", 1)
