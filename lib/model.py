"""Program model: classes, methods, attribute types, call resolution and effect summaries.

Everything is derived from the source of /repo's package on every run.
"""
import ast
import hashlib
import os
from . import terms as tm

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    pass


class Func:
    def __init__(self, name, node, cls, module):
        self.name = name
        self.node = node
        self.cls = cls  # class name or None
        self.module = module
        self.qual = f"{cls}.{name}" if cls else name
        a = node.args
        self.posargs = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.posargs[len(self.posargs) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.annot = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = any(d == "property" or d.endswith(".getter") for d in self.decorators)
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    @property
    def where(self):
        return f"{self.module}:{self.node.lineno} ({self.qual})"

    def __repr__(self):
        return f"<Func {self.qual}>"


def own_nodes(fn):
    """nodes of a function body, without the bodies of nested functions/lambdas/classes"""
    stack = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.bases = [b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else "?") for b in node.bases]
        self.methods = {}
        self.setters = {}
        self.getters = {}
        self.classattrs = {}


MUTATORS = {
    "append", "remove", "pop", "insert", "extend", "clear", "update", "setdefault", "popitem", "add", "discard",
    "sort", "reverse", "popleft", "appendleft", "heappush", "heappop", "heapify",
}

# types that cannot be inferred from constructor calls; one line of reason each
ATTR_HINTS = {
    "env": "Environment",  # every simulation object stores its environment
    "_current_component": "Component",  # Environment
    "_main": "Component",
    "component": "Component",  # Qmember.component
    "queue": "Queue",  # Qmember.queue
    "predecessor": "Qmember",
    "successor": "Qmember",
    "_from_store_item": "Component",
    "_to_store_item": "Component",
    "_from_store_store": "Store",
    "_to_store_store": "Store",
    "status": "_StatusMonitor",
    "mode": "_ModeMonitor",
    "capacity": "_CapacityMonitor",
    "length": "_SystemMonitor",
    "length_of_stay": "Monitor",
    "available_quantity": "_SystemMonitor",
    "occupancy": "_SystemMonitor",
    "_requesters": "Queue",
    "_claimers": "Queue",
    "_waiters": "Queue",
    "_from_store_requesters": "Queue",
    "_to_store_requesters": "Queue",
}
# element types of containers, by attribute name
ELEM_HINTS = {
    "_requests": "Resource",
    "_claims": "Resource",
    "_from_stores": "Store",
    "_to_stores": "Store",
    "_qmembers": "Queue",
    "_standbylist": "Component",
    "_pendingstandbylist": "Component",
}


def fold_temps(tree):
    """t = e; if t: / return t, with t used nowhere else, as if e / return e: the same program"""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        uses = None
        for n in ast.walk(fn):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if not isinstance(b, list) or len(b) < 2 or not isinstance(b[0], ast.stmt):
                    continue
                i = 0
                while i + 1 < len(b):
                    a, s = b[i], b[i + 1]
                    if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(s, (ast.If, ast.Return)):
                        t = a.targets[0].id
                        v = s.test if isinstance(s, ast.If) else s.value
                        inner = v.operand if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) else v
                        if isinstance(inner, ast.Name) and inner.id == t:
                            if uses is None:
                                uses = {}
                                for x in ast.walk(fn):
                                    if isinstance(x, ast.Name):
                                        uses[x.id] = uses.get(x.id, 0) + 1
                                    elif isinstance(x, (ast.Global, ast.Nonlocal)):
                                        for y in x.names:
                                            uses[y] = 99
                            if uses.get(t) == 2:
                                e = a.value if inner is v else ast.copy_location(ast.UnaryOp(ast.Not(), a.value), a.value)
                                if isinstance(s, ast.If):
                                    s.test = e
                                else:
                                    s.value = e
                                del b[i]
                                continue
                    i += 1
    return tree


class Model:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.pkg = os.path.join(self.repo, "salabim")
        self.classes = {}
        self.functions = {}
        self.consts = {}
        self.trees = {}
        self.digest = hashlib.sha256()
        files = sorted(f for f in os.listdir(self.pkg) if f.endswith(".py"))
        if not files:
            raise AnalysisBroken("no python modules in " + self.pkg)
        self.loc = 0
        for f in files:
            path = os.path.join(self.pkg, f)
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            self.digest.update(src.encode())
            self.loc += src.count("\n")
            tree = fold_temps(ast.parse(src, path))
            self.trees[f] = tree
            self._load(tree, "salabim/" + f)
        self.digest = self.digest.hexdigest()
        # module variables that functions assign: not constants
        self.global_vars = set()
        self.declares = {}
        for t in self.trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Global):
                    self.global_vars |= {x for x in n.names if x in self.consts}
        for x in self.global_vars:
            self.consts.pop(x)
        self.by_method = {}
        for c in self.classes.values():
            for m, fi in c.methods.items():
                self.by_method.setdefault(m, []).append(fi)
        self._mro = {}
        self._attr_types()
        self._summaries = None

    # ---- loading
    def _load(self, tree, module):
        def top(body):
            for n in body:
                if isinstance(n, ast.ClassDef):
                    self._load_class(n, module)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.functions[n.name] = Func(n.name, n, None, module)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    nm = n.targets[0].id
                    v = n.value
                    if isinstance(v, ast.Constant):
                        self.consts[nm] = tm.const(v.value)
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "float" and v.args and isinstance(v.args[0], ast.Constant) and v.args[0].value == "inf":
                        self.consts[nm] = tm.INF
                    elif isinstance(v, ast.Name) and v.id in self.functions:
                        self.functions.setdefault(nm, self.functions[v.id])
                elif isinstance(n, (ast.If, ast.Try)):
                    top(n.body)
                    top(getattr(n, "orelse", []))

        top(tree.body)

    def _load_class(self, node, module):
        c = Cls(node.name, node, module)
        self.classes[node.name] = c
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = Func(n.name, n, node.name, module)
                if any(d.endswith(".setter") for d in fi.decorators):
                    c.setters[n.name] = fi
                elif any(d.endswith(".deleter") for d in fi.decorators):
                    pass
                elif fi.is_property:
                    c.getters[n.name] = fi
                else:
                    c.methods[n.name] = fi
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.classattrs[t.id] = n.value
                        if isinstance(n.value, ast.Name) and n.value.id in c.methods:
                            c.methods[t.id] = c.methods[n.value.id]
            elif isinstance(n, ast.ClassDef):
                pass

    # ---- class queries
    def mro(self, name):
        if name in self._mro:
            return self._mro[name]
        out = []

        def rec(n):
            if n in out or n not in self.classes:
                return
            out.append(n)
            for b in self.classes[n].bases:
                rec(b)

        rec(name)
        self._mro[name] = out
        return out

    def issub(self, name, base):
        return base in self.mro(name)

    def method(self, cls, name):
        for c in self.mro(cls):
            m = self.classes[c].methods.get(name)
            if m is not None:
                return m
        return None

    def getter(self, cls, name):
        for c in self.mro(cls):
            if name in self.classes[c].getters:
                return self.classes[c].getters[name]
            if name in self.classes[c].methods:
                return None
        return None

    def setter(self, cls, name):
        for c in self.mro(cls):
            if name in self.classes[c].setters:
                return self.classes[c].setters[name]
            if name in self.classes[c].getters:
                return None
        return None

    def need(self, qual):
        """resolve 'Class.method' or 'function'; AnalysisBroken when the anchor vanished"""
        if "." in qual:
            c, m = qual.split(".", 1)
            if c in self.classes:
                fi = self.method(c, m)
                if fi is not None:
                    return fi
        elif qual in self.functions:
            return self.functions[qual]
        raise AnalysisBroken(f"anchor {qual} not found in {self.pkg}")

    def get(self, qual):
        try:
            return self.need(qual)
        except AnalysisBroken:
            return None

    def all_funcs(self):
        for f in self.functions.values():
            yield f
        for c in self.classes.values():
            yield from c.methods.values()
            yield from c.setters.values()
            yield from c.getters.values()

    def subclasses(self, base):
        return [c for c in self.classes if self.issub(c, base)]

    # ---- attribute types
    def _attr_types(self):
        self.attr_types = {}
        self.attr_name_types = {}
        for c in self.classes.values():
            for fi in list(c.methods.values()):
                for n in own_nodes(fi.node):
                    if not isinstance(n, ast.Assign):
                        continue
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            for k in self._value_types(n.value, fi, c):
                                self.attr_types.setdefault((c.name, t.attr), set()).add(k)
                                self.attr_name_types.setdefault(t.attr, set()).add(k)

    def _value_types(self, v, fi, c, depth=0):
        """classes of which an expression may be a new instance (through helpers and local names)"""
        if depth > 3:
            return set()
        if isinstance(v, ast.IfExp):
            return self._value_types(v.body, fi, c, depth + 1) | self._value_types(v.orelse, fi, c, depth + 1)
        if isinstance(v, ast.Name) and depth:
            return set()
        if isinstance(v, ast.Name):
            out = set()
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
                    out |= self._value_types(n.value, fi, c, depth + 1)
            return out
        if not isinstance(v, ast.Call):
            return set()
        f = v.func
        body = None
        if isinstance(f, ast.Name):
            if f.id in self.classes:
                return {f.id}
            for n in ast.walk(fi.node):
                if isinstance(n, ast.FunctionDef) and n is not fi.node and n.name == f.id:
                    body = n
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and f.attr in c.methods:
            body = c.methods[f.attr].node
        if body is None:
            return set()
        out = set()
        for n in own_nodes(body):
            if isinstance(n, ast.Return) and isinstance(n.value, (ast.Call, ast.IfExp)):
                out |= self._value_types(n.value, fi, c, depth + 1)
        return out

    def attr_type(self, cls, attr):
        if cls:
            for c in self.mro(cls):
                s = self.attr_types.get((c, attr))
                if s and len(s) == 1:
                    return next(iter(s))
        if cls and attr in ("capacity", "length", "mode", "status", "value"):
            pass
        h = ATTR_HINTS.get(attr)
        if h:
            return h
        s = self.attr_name_types.get(attr)
        if s and len(s) == 1:
            return next(iter(s))
        return None

    # ---- effect summaries (name based class hierarchy analysis, transitive)
    def direct_writes(self, node):
        out = set()
        for n in ast.walk(node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, ast.For):
                tg = [n.target]
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS and isinstance(f.value, ast.Attribute):
                    out.add(f.value.attr)
                if isinstance(f, ast.Attribute) and f.attr in ("heappush", "heappop", "heapify") and n.args and isinstance(n.args[0], ast.Attribute):
                    out.add(n.args[0].attr)
            st = list(tg)
            while st:
                t = st.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    st.extend(t.elts)
                elif isinstance(t, ast.Starred):
                    st.append(t.value)
                elif isinstance(t, ast.Attribute):
                    out.add(t.attr)
                elif isinstance(t, ast.Subscript):
                    b = t.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute):
                        out.add(b.attr)
        return out

    def called_names(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    out.add(("m", n.func.attr))
                elif isinstance(n.func, ast.Name):
                    out.add(("f", n.func.id))
            elif isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and t.attr in ("_value", "value"):
                        out.add(("m", "tally"))
        return out

    def summaries(self):
        if self._summaries is None:
            direct, calls = {}, {}
            for f in self.all_funcs():
                direct[f.qual] = self.direct_writes(f.node)
                calls[f.qual] = self.called_names(f.node)
            name_targets = {}
            for f in self.all_funcs():
                name_targets.setdefault(("m", f.name), []).append(f.qual)
                if f.cls is None:
                    name_targets.setdefault(("f", f.name), []).append(f.qual)
                if f.name == "__init__":
                    name_targets.setdefault(("f", f.cls), []).append(f.qual)
            for k in ("append", "remove", "pop", "get", "copy", "update", "clear", "insert", "extend", "index", "count", "add", "keys", "values", "items", "sort", "move", "name", "print", "write", "close", "read", "replace", "format", "join", "split", "strip"):
                name_targets.pop(("m", k), None)
            summ = {q: set(d) for q, d in direct.items()}
            changed = True
            while changed:
                changed = False
                for q, cs in calls.items():
                    s = summ[q]
                    n0 = len(s)
                    for c in cs:
                        for t in name_targets.get(c, ()):
                            if t != q:
                                s |= summ[t]
                    if len(s) != n0:
                        changed = True
            self._summaries = summ
        return self._summaries
