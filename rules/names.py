"""Names of objects: contents of texts are followed (concatenation, formatting, slicing, tests of the end) as terms."""
import ast
from lib.core import *
from lib.engine import cat, fmt
from . import prop
from .objmon import ctor_args, A

B = mk("sym", "text:base")
KINDS = ("Component", "Queue", "Monitor", "Resource", "State", "Environment")


def namer(ctx):
    """the function that gives an object its name: writes the sequence number of its argument"""
    f = ctx.m.get("_set_name")
    if f is not None and "_sequence_number" in ctx.m.direct_writes(f.node):
        return f
    c = [f for f in ctx.m.all_funcs() if "_sequence_number" in ctx.m.direct_writes(f.node)]
    if len(c) != 1:
        raise AnalysisBroken("no single function that numbers objects")
    return c[0]


def lower_class(t, obj):
    return t.op == "pure" and t.a[0] == "text.lower" and t.a[1].op == "attr" and t.a[1].a[1] == "__name__" and obj in list(subterms(t))


@prop("C31")
def c31(ctx):
    m = ctx.m
    f = namer(ctx)
    ps = list(f.posargs)
    if len(ps) != 3 or "name" not in ps:
        raise AnalysisBroken("signature of the naming function is not recognised")
    # which parameter is the object, which the register
    obj = next((x for x in ps if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == x for n in ast.walk(f.node))), None)
    reg = next(x for x in ps if x not in ("name", obj))
    O, D = mk("sym", "arg:" + obj), mk("sym", "arg:" + reg)
    cases = [(NONE, None, "."), (const(""), None, "."), (const("."), None, "."), (const(","), None, ",")] + [(cat(B, const(e)), B, e) for e in (".", ",", "x")]
    for given, base, end in cases:
        for p in ctx.paths(f, key="name" + repr(given), args={"name": given}, strings=True, yieldless=False, entry=f):
            if p.raised:
                ctx.fail("naming", f.qual, f"naming an object {given!r} raises {p.outcome[1].name}", ctx.where(f), pathstr(p))
                continue
            w = {a: [e.value for e in p.events if e.kind == "write" and e.name == a and e.base is O] for a in ("_name", "_base_name", "_sequence_number")}
            w = {a: v[-1] if v else None for a, v in w.items()}
            sets = [e for e in p.events if e.kind == "setitem" and e.base is D]
            ctx.count("naming cases")
            where = ctx.where(f)
            if end == "x":
                ctx.check(w["_name"] is given, "plain-name", f.qual, f"a name that does not end with . or , becomes {w['_name']!r}", where, pathstr(p))
                ctx.check(w["_base_name"] is given, "base-name", f.qual, f"the name given at creation is not kept as the base name ({w['_base_name']!r})", where, pathstr(p))
                ctx.check(not sets and w["_sequence_number"] in (None, const(1)), "plain-name", f.qual, "a name that does not end with . or , is numbered", where, pathstr(p))
                continue
            bn = w["_base_name"]
            x = base
            if base is None:
                ok = bn is not None and bn.op == "cat" and len(bn.a) == 2 and bn.a[1] is const(end) and lower_class(bn.a[0], O)
                if not ctx.check(ok, "default-name", f.qual, f"an object named {given!r} gets the base name {bn!r}, its class name in lower case followed by {end!r} required", where, pathstr(p)):
                    continue
                x = bn.a[0]
            full = cat(x, const(end))
            ctx.check(bn is full, "base-name", f.qual, f"base name of {given!r} is {bn!r}", where, pathstr(p))
            start = 1 if end == "," else 0
            seen = implied(p.facts, mk("cmp", "in", full, D))
            old = mk("idx", D, full)
            seq = w["_sequence_number"]
            got = mk("pure", "get", D, full, const(start - 1))
            if seen is True:
                want = [tm.add(old, const(1))]
            elif seen is False:
                want = [const(start)]
            else:
                want = [tm.add(got, const(1))]
            ctx.check(any(seq is v for v in want), "numbered-consecutively", f.qual, f"sequence number for {given!r} ({'not ' if not seen else ''}used before) is {seq!r}, {want[0]!r} required", where, pathstr(p))
            ctx.check(bool(sets) and sets[-1].args[0] is full and any(sets[-1].value is v for v in want), "number-registered", f.qual, f"the number last given for {given!r} is registered as {[(e.args, e.value) for e in sets]!r}", where, pathstr(p))
            ctx.check(any(w["_name"] is cat(x, const("."), fmt(v)) for v in want), "numbered-name", f.qual, f"{given!r} gives the name {w['_name']!r}", where, pathstr(p))
    ctx.floor("naming cases", 13)
    # constructors
    regs = {}
    for cls in KINDS:
        fi = m.need(cls + ".__init__")
        if cls == "Environment":
            # too many paths: the call itself
            calls = [n for n in own_nodes(fi.node) if isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")) == f.name]
            ctx.count("constructors")
            ctx.check(len(calls) == 1, "object-named", fi.qual, f"the environment is named {len(calls)} times", ctx.where(fi))
            for n in calls:
                a = dict(zip(ps, n.args))
                a.update({k.arg: k.value for k in n.keywords})
                d = a.get(reg)
                ctx.check(isinstance(a.get("name"), ast.Name) and isinstance(a.get(obj), ast.Name) and a[obj].id == fi.posargs[0], "object-named", fi.qual, "something else than the environment is named", ctx.where(fi, n.lineno))
                regs.setdefault(cls, set()).add(d.attr if isinstance(d, ast.Attribute) else ast.dump(d) if d is not None else "?")
            continue
        for p in ctx.paths(fi, key="names", yieldless=False, entry=fi, queues=False, assume={"_animate": None}, extra_handlers={f.qual: h_call, f.name: h_call, ctx.roles.reschedule.qual: h_skip, cls + ".setup": h_skip}):
            if p.raised:
                continue
            es = [e for e in p.events if e.kind == "call" and e.name == f.qual and e.args.get(obj) is SELF]
            if not es and cls == "Monitor":
                continue  # frozen: not in an environment
            ctx.count("constructors")
            if not ctx.check(len(es) == 1, "object-named", fi.qual, f"the object is named {len(es)} times", ctx.where(fi), pathstr(p)):
                continue
            e = es[0]
            nm = e.args.get("name")
            ok = nm is mk("sym", "arg:name") 
            ctx.check(ok, "object-named", fi.qual, f"the object is named {nm!r}", ctx.where(fi, e.line), pathstr(p))
            d = e.args.get(reg)
            if d.op == "attr":
                regs.setdefault(cls, set()).add(d.a[1])
            else:
                regs.setdefault(cls, set()).add(repr(d))
    ctx.floor("constructors", 6)
    for cls in regs:
        for c2 in regs:
            if cls < c2:
                ctx.check(not (regs[cls] & regs[c2]), "numbered-per-kind", cls + ".__init__", f"objects of kind {cls} and {c2} share one numbering ({sorted(regs[cls] & regs[c2])})", ctx.where(m.need(cls + ".__init__")))
    # getters and renaming
    V = mk("sym", "text:value")
    for cls in KINDS:
        ME = ENV if cls == "Environment" else SELF
        for g, alts in (("base_name", ("_base_name", "_name")), ("sequence_number", ("_sequence_number", None))):
            fi = m.method(cls, g)
            if fi is None:
                continue
            for p in ctx.paths(fi, key="get", yieldless=False, entry=fi, strings=True):
                v = p.outcome[1]
                a = A(ME, alts[0])
                d = A(ME, "_name") if alts[1] else const(1)
                has = implied(p.facts, truth(mk("pure", "hasattr", ME, const(alts[0]))))
                ok = not p.raised and (v is mk("pure", "getattr", ME, const(alts[0]), d) or v is a or has is False and v is d)
                ctx.count("name getters")
                ctx.check(ok, "reported", fi.qual, f"{g}() is {v!r}", ctx.where(fi), pathstr(p))
        fi = m.method(cls, "name")
        if fi is None:
            continue
        # names of what belongs to the object, at creation
        init = m.need(cls + ".__init__")
        derived = {}
        if cls in ("Queue", "Resource", "State"):
            for p in ctx.paths(init, key="names-derived", yieldless=False, entry=init, queues=False, strings=True, extra_handlers={f.qual: h_call, f.name: h_call, cls + ".setup": h_skip}):
                if p.raised:
                    continue
                for e in p.events:
                    if e.kind == "write" and e.base is ME and e.value is not None and e.value.op == "new":
                        new = [n for n in p.events if n.kind == "new" and n.base is e.value and (m.issub(n.name, "Monitor") or m.issub(n.name, "Queue"))]
                        if new:
                            a = ctor_args(ctx, new[-1].name, new[-1])
                            nm = a.get("name")
                            ctx.count("derived names")
                            own = [x for x in (nm.a if nm is not None and nm.op == "cat" else ()) if is_attr(x, "_name", ME) or x.op == "attr" and x.a[1] == "_name" and x.a[0] is ME]
                            if not ctx.check(bool(own), "derived-name", init.qual, f"{e.name} is created with the name {nm!r}, which does not contain the name of the object", ctx.where(init, new[-1].line), pathstr(p)):
                                continue
                            derived[e.name] = cat(*(V if x in own else x for x in nm.a))
            ctx.check(len(derived) >= 2, "derived-name", init.qual, f"names derived for {sorted(derived)} only", ctx.where(init))
        for given in (NONE, V):
            for p in ctx.paths(fi, key="rename" + repr(given), args={"value": given}, yieldless=False, entry=fi, strings=True, recurse=4, queues=False):
                if p.raised:
                    ctx.fail("rename", fi.qual, "raises an error", ctx.where(fi), pathstr(p))
                    continue
                ws = [e for e in p.events if e.kind == "write"]
                own = [e.value for e in ws if e.base is ME and e.name == "_name"]
                ctx.count("renaming")
                if given is NONE:
                    ctx.check(not ws and p.outcome[1] is A(ME, "_name"), "name-reported", fi.qual, f"name() is {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                    continue
                ctx.check(bool(own) and own[-1] is V and p.outcome[1] is V, "rename", fi.qual, f"name(value) makes the name {own!r} and returns {p.outcome[1]!r}", ctx.where(fi), pathstr(p))
                ctx.check(not any(e.name in ("_base_name", "_sequence_number") for e in ws), "rename-keeps-base", fi.qual, "renaming changes the base name or the sequence number", ctx.where(fi), pathstr(p))
                for a, want in derived.items():
                    got = [e.value for e in ws if e.name == "_name" and e.base is A(ME, a)]
                    ctx.check(bool(got) and got[-1] is want, "derived-name-follows", fi.qual, f"after renaming the name of {a} is {got[-1:]!r}, {want!r} required", ctx.where(fi), pathstr(p))
    ctx.floor("name getters", 12)
    ctx.floor("renaming", 12)
    ctx.floor("derived names", 10)
