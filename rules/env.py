"""Environments are isolated from each other.

(1) Every constructor binds the object to the environment given, or to the default environment (path-sensitive dataflow).
(2) Every stateful object that the library creates itself is created in the environment of the object (or environment) for
which it is created: the environment handed over is followed back through local names, parameters and dictionaries.
(3) Simulation operations do not write process-wide state (call-graph effects); the state of an environment starts fresh;
no list or dictionary is shared through a class attribute or a default argument that is changed."""
import ast
from lib.core import *
from lib.effects import Effects
from . import prop
from .effects import CORE


BOUND = "Component ComponentGenerator Monitor Queue Resource State Store PeriodMonitor".split()
CTORS = "Component Monitor Queue Resource State Store PeriodMonitor Event".split()
FRESH = "_event_list _standbylist _pendingstandbylist _seq _now _offset _nameserializeComponent _nameserializeQueue _nameserializeResource _nameserializeState _nameserializeStore _nameserializeMonitor".split()
GLOBAL_OK = {"default_env"}  # swapped and put back by the generators (C25), set by Environment


def envparam(f):
    a = f.node.args
    return "env" in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class Origin:
    """is this expression the environment of the object at hand?"""

    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.kwargs = a.kwarg.arg if a.kwarg else None
        self.defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value)
            elif isinstance(n, ast.For):
                self.bind(n.target, n.iter)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    self.bind(g.target, g.iter)

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.bind(a, b)
            else:
                for a in t.elts:
                    self.bind(a, v)

    def own(self, n, seen=()):
        """an object of this model: self, a parameter, or something reached from them"""
        if isinstance(n, ast.Name):
            if n.id in ("self", "g"):
                return n.id == "self"
            if n.id in seen:
                return True
            if n.id in self.defs:
                return all(self.own(v, seen + (n.id,)) for v in self.defs[n.id])
            return n.id in self.params
        if isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)):
            return self.own(n.value, seen)
        if isinstance(n, ast.Call):
            return self.own(n.func, seen) or any(self.own(a, seen) for a in n.args)
        return False

    def isenv(self, n, seen=()):
        if isinstance(n, ast.Name):
            if n.id == "self":
                return self.f.cls == "Environment"
            if n.id in seen:
                return True
            ok = n.id == "env" and "env" in self.params
            ds = self.defs.get(n.id, [])
            if ok:
                return all(self.isenv(v, seen + (n.id,)) or self.isdefault(v) for v in ds)
            return bool(ds) and all(self.isenv(v, seen + (n.id,)) for v in ds)
        if isinstance(n, ast.Attribute):
            return n.attr == "env" and self.own(n.value)
        if isinstance(n, ast.IfExp):
            return (self.isenv(n.body, seen) or self.isdefault(n.body)) and (self.isenv(n.orelse, seen) or self.isdefault(n.orelse)) and any(isinstance(x, ast.Name) and x.id == "env" for x in ast.walk(n))
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if name == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "env":
                return self.own(n.args[0])
            if name == "Environment":
                return True  # an environment of its own
            return bool(n.args) and self.isenv(n.args[0], seen)  # _set_env(env)
        return False

    def isdefault(self, n):
        return isinstance(n, ast.Attribute) and n.attr == "default_env" or (isinstance(n, ast.Call) and "default_env" in ast.unparse(n.func))

    def indict(self, n, seen=()):
        """a ** argument that hands over the environment"""
        if isinstance(n, ast.Name):
            if n.id in seen:
                return False
            if n.id == self.kwargs and n.id not in self.defs:
                return True  # what the caller gave
            if any(self.indict(v, seen + (n.id,)) for v in self.defs.get(n.id, [])):
                return True
            for x in ast.walk(self.f.node):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == n.id and isinstance(t.slice, ast.Constant) and t.slice.value == "env" for t in x.targets):
                    return self.isenv(x.value)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "setdefault") and isinstance(x.func.value, ast.Name) and x.func.value.id == n.id:
                    if any(k.arg == "env" and self.isenv(k.value) for k in x.keywords) or any(self.indict(a) for a in x.args) or (len(x.args) == 2 and isinstance(x.args[0], ast.Constant) and x.args[0].value == "env" and self.isenv(x.args[1])):
                        return True
            return False
        if isinstance(n, ast.Dict):
            return any((isinstance(k, ast.Constant) and k.value == "env" and self.isenv(v)) or (k is None and self.indict(v, seen)) for k, v in zip(n.keys, n.values))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict":
            return any((k.arg == "env" and self.isenv(k.value)) or (k.arg is None and self.indict(k.value, seen)) for k in n.keywords) or any(self.indict(a, seen) for a in n.args)
        if isinstance(n, ast.BinOp):
            return self.indict(n.left, seen) or self.indict(n.right, seen)
        return False


def bound_class(m, name):
    return name in m.classes and any(name == b or m.issub(name, b) for b in BOUND)


def created(ctx, f, call, org):
    """class of the stateful object that is created by this call, None if none"""
    m, fn = ctx.m, call.func
    if isinstance(fn, ast.Name):
        if bound_class(m, fn.id):
            return fn.id
        ds = org.defs.get(fn.id, [])
        if ds and all(is_own_class(d) for d in ds) and f.cls and bound_class(m, f.cls):
            return f.cls
        return None
    if is_own_class(fn) and f.cls and bound_class(m, f.cls):
        return f.cls
    return None


def is_own_class(n):
    return (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == "self") or (
        isinstance(n, ast.Attribute) and n.attr == "__class__" and isinstance(n.value, ast.Name) and n.value.id == "self"
    )


@prop("C28")
def c28(ctx):
    m = ctx.m
    # (1) constructors
    for cl in CTORS:
        fi = m.get(cl + ".__init__")
        if fi is None or not envparam(fi):
            continue
        for given in (True, False):
            n = 0
            for p in ctx.paths(fi, key=f"env{given}", args={"env": ENV if given else NONE}, cls=cl, entry=fi, max_paths=20000):
                if p.raised or (given and (implied(p.facts, cmp_eq(ENV, NONE)) is True or implied(p.facts, truth(ENV)) is False)):
                    continue
                w = [e for e in p.events if e.kind == "write" and e.name == "env" and e.base is SELF]
                n += 1
                ctx.count("constructor paths")
                ok = bool(w) and all(e.value is ENV if given else is_attr(e.value, "default_env") for e in w)
                ctx.check(ok, "bound-to-its-environment", fi.qual, f"the object belongs to {[e.value for e in w]!r} when {'an' if given else 'no'} environment is given", ctx.where(fi), pathstr(p))
            ctx.check(n > 0 or cl == "ComponentGenerator", "bound-to-its-environment", fi.qual, "cannot be created " + ("in a given" if given else "in the default") + " environment", ctx.where(fi))
    ctx.floor("constructor paths", 100)
    # (2) what the library creates itself
    for f in m.all_funcs():
        org = None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            org = org or Origin(ctx, f)
            cl = created(ctx, f, n, org)
            if cl is None:
                continue
            ini = m.get(cl + ".__init__")
            ctx.count("internal creations")
            ctx.analysed.add(f.qual)
            kw = [k.value for k in n.keywords if k.arg == "env"]
            if not kw and ini is not None:
                a = [x.arg for x in ini.node.args.posonlyargs + ini.node.args.args][1:]
                if "env" in a and not any(isinstance(x, ast.Starred) for x in n.args) and len(n.args) > a.index("env"):
                    kw = [n.args[a.index("env")]]
            if kw:
                ok = org.isenv(kw[0])
            elif ini is not None and not envparam(ini) and ini.node.args.kwarg is None:
                # bound to the environment of one of its arguments
                ok = any(org.own(x) for x in n.args) or any(org.own(k.value) for k in n.keywords)
            else:
                ok = any(k.arg is None and org.indict(k.value) for k in n.keywords) or any(isinstance(x, ast.Starred) for x in n.args)
            ctx.check(ok, "created-in-own-environment", f.qual, f"{ast.unparse(n.func)}(...) is not created in the environment at hand" + (f" but in {ast.unparse(kw[0])}" if kw else ": it ends up in the default environment"), ctx.where(f, n.lineno), "")
    ctx.floor("internal creations", 30)
    # (3) process wide state
    E = Effects(m, glob={"._animate": False, "._animate3d": False, "._ui": False, "Pythonista": False}, opaque={"Environment.quit", "Environment.video_close"})
    ent = [(m.get(q), m.get(q).cls, {}, False) for q in CORE + [c + ".__init__" for c in CTORS] if m.get(q)]
    ctx.count("operations", len(ent))
    ctx.floor("operations", len(CORE))
    E.reach(ent)
    names = module_names(m)
    for f in [m.get(q) for q in sorted(E.nfuncs) if m.get(q)]:
        w = global_writes(names, f)
        ctx.count("functions searched for process wide writes")
        for name, line in w:
            ctx.check(name in GLOBAL_OK, "no-process-wide-state", f.qual, f"a simulation operation changes {name}, which all environments share", ctx.where(f, line), "")
        ctx.check(True, "no-process-wide-state", f.qual, "", ctx.where(f), "")
        for n in ast.walk(f.node):
            if (isinstance(n, ast.Attribute) and n.attr == "default_env" and isinstance(n.ctx, ast.Load)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "default_env"):
                swap = any(isinstance(x, ast.Attribute) and x.attr == "default_env" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))
                ctx.check(envparam(f) or swap, "own-environment-used", f.qual, "a simulation operation uses the default environment, whatever environment it is in", ctx.where(f, n.lineno), "")
    # fresh state
    init = m.need("Environment.__init__")
    found = {}
    todo, seen = [init], set()
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        found.setdefault(t.attr, []).append((f, n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                g = m.get("Environment." + n.func.attr)
                if g is not None and n.func.attr.startswith("_"):
                    todo.append(g)
    for a in FRESH:
        ds = found.get(a, [])
        ctx.count("environment state", 1 if ds else 0)
        for f, n in ds:
            ctx.check(is_fresh_value(n.value), "fresh-environment", f.qual, f"{a} of a new environment is {ast.unparse(n.value)}, which is not new", ctx.where(f, n.lineno), "")
        ctx.check(bool(ds), "fresh-environment", init.qual, f"a new environment gets no {a} of its own", ctx.where(init), "")
    ctx.floor("environment state", len(FRESH))
    # sharing through a class or a default value
    changed = changed_containers(m)
    for cname, cnode in class_nodes(m):
        for s in cnode.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and is_container(s.value):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(t, ast.Name):
                        ctx.count("class level containers")
                        ok = t.id not in changed or (cname == "Environment" and t.id == "_nameserialize")
                        ctx.check(ok, "not-shared-by-class", f"{cname}.{t.id}", f"a container that is shared by all objects of class {cname} is changed (in {', '.join(sorted(changed.get(t.id, ()))[:3])})", f"salabim/salabim.py:{s.lineno}", "")
    for f in m.all_funcs():
        a = f.node.args
        pos = a.posonlyargs + a.args
        for par, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
            if is_container(d):
                ctx.count("default containers")
                bad = default_escapes(f, par.arg, changed)
                ctx.check(bad is None, "not-shared-by-default", f.qual, f"the default value of {par.arg} is one {ast.unparse(d)} for all calls, and is {bad}", ctx.where(f), "")


def is_container(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter"))


def is_fresh_value(n):
    if is_container(n) or isinstance(n, ast.Constant):
        return True
    if isinstance(n, ast.UnaryOp):
        return is_fresh_value(n.operand)
    return False


MUT = {"append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "add", "discard", "popitem", "sort", "appendleft"}


def global_writes(names, f):
    """(name, line) of writes to module variables and to attributes of the module-wide object g"""
    out = []
    glob = {n for x in ast.walk(f.node) if isinstance(x, ast.Global) for n in x.names}
    local = {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in glob:
            local.add(x.id)

    def base(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            p = n
            n = n.value
            if isinstance(n, ast.Name) and n.id == "g" and "g" not in local:
                return p.attr if isinstance(p, ast.Attribute) else "g"
            if isinstance(n, ast.Name) and n.id in names and n.id not in local and isinstance(p, ast.Subscript):
                return n.id
        return None

    for x in ast.walk(f.node):
        ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for e in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                if isinstance(e, ast.Name) and e.id in glob:
                    out.append((e.id, x.lineno))
                elif base(e):
                    out.append((base(e), x.lineno))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
            b = x.func.value
            if isinstance(b, ast.Name) and b.id in names and b.id not in local:
                out.append((b.id, x.lineno))
            elif base(b):
                out.append((base(b), x.lineno))
    return out


def class_nodes(m):
    for t in m.trees.values():
        for n in t.body:
            if isinstance(n, ast.ClassDef):
                yield n.name, n


def module_names(m):
    out = set(m.global_vars)
    for t in m.trees.values():
        for n in t.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                out |= {x.id for x in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(x, ast.Name)}
    return out


def changed_containers(m):
    """attribute name -> functions that change the container it holds in place, without having made it themselves"""
    out = {}
    for f in m.all_funcs():
        own = set()
        if f.name == "__init__":
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    own |= {t.attr for t in x.targets if isinstance(t, ast.Attribute)}
        for x in ast.walk(f.node):
            b = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                b = x.func.value
            elif isinstance(x, (ast.Assign, ast.Delete, ast.AugAssign)):
                for t in getattr(x, "targets", None) or [x.target]:
                    if isinstance(t, ast.Subscript):
                        b = t.value
            if isinstance(b, ast.Attribute) and b.attr not in own:
                out.setdefault(b.attr, set()).add(f.qual)
    return out


def default_escapes(f, par, changed):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(x.func.value, ast.Name) and x.func.value.id == par:
            return "changed"
        if isinstance(x, (ast.Assign, ast.AugAssign)):
            for t in getattr(x, "targets", None) or [x.target]:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == par:
                    return "changed"
            if isinstance(x.value, ast.Name) and x.value.id == par and any(isinstance(t, ast.Attribute) and t.attr in changed for t in getattr(x, "targets", [])):
                return "kept by the object and changed"
    return None
