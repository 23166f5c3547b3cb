"""Call-graph effect analysis.

For a function, a receiver class and known constant arguments: which attributes of which (non fresh) objects it may
write, and which functions it may call, transitively. Branches that the constant arguments exclude are not followed.
A write to an object that the function has just created is not an effect."""
import ast
from .model import ATTR_HINTS, ELEM_HINTS, MUTATORS

UNKNOWN = object()
GENERIC = {
    "append", "remove", "pop", "get", "copy", "update", "clear", "insert", "extend", "index", "count", "add", "keys", "values", "items", "sort", "print",
    "write", "close", "read", "replace", "format", "join", "split", "strip", "find", "reverse", "discard", "start", "stop", "open", "save", "show", "quit", "is_alive", "paste",
    "setdefault", "popitem", "popleft", "appendleft", "lower", "upper", "startswith", "endswith", "title", "intersection", "union", "difference", "rotate", "resize", "flush", "run", "switch", "draw",
}
HEAP = {"heappush", "heappop", "heapify", "heapreplace", "heappushpop", "shuffle", "setattr", "insort", "insort_left", "insort_right"}


class Effect:
    __slots__ = ("attr", "base", "how", "fi", "line")

    def __init__(self, attr, base, how, fi, line):
        self.attr, self.base, self.how, self.fi, self.line = attr, base, how, fi, line

    def __repr__(self):
        return f"{self.how} {self.base}.{self.attr} at {self.fi.qual}:{self.line}"


def param_consts(fi, node, call=None, known=None, bound=True):
    """constants of the parameters of fi for a call node (None: all defaults)"""
    out = {}
    names = list(fi.posargs)
    if bound and fi.cls and not fi.is_static and names:
        names = names[1:]
    given = {}
    star = False
    if call is not None:
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                star = True
                break
            if i < len(names):
                given[names[i]] = a
        for k in call.keywords:
            if k.arg is None:
                star = True
            else:
                given[k.arg] = k.value
    for p in names + fi.kwonly:
        if p in given:
            v = constant(given[p], known or {})
        elif star:
            v = UNKNOWN
        elif p in fi.defaults:
            v = constant(fi.defaults[p], {})
        else:
            v = UNKNOWN
        if v is not UNKNOWN:
            out[p] = v
    stored = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    return {k: v for k, v in out.items() if k not in stored}


def constant(n, known):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name) and n.id in known:
        return known[n.id]
    return UNKNOWN


def test(n, known, glob, look=None, depth=3):
    """truth of a condition: True, False or None"""
    if isinstance(n, ast.Constant):
        return bool(n.value)
    if isinstance(n, ast.Name):
        if n.id in known:
            return bool(known[n.id])
        return glob.get(n.id)
    if isinstance(n, ast.Attribute):
        return glob.get("." + n.attr)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        v = test(n.operand, known, glob, look, depth)
        return None if v is None else not v
    if isinstance(n, ast.BoolOp):
        vs = [test(v, known, glob, look, depth) for v in n.values]
        if isinstance(n.op, ast.And):
            return False if False in vs else (True if all(v is True for v in vs) else None)
        return True if True in vs else (False if all(v is False for v in vs) else None)
    if isinstance(n, ast.Call) and look is not None and depth:
        # a function that only returns a condition
        f = look(n.func)
        if f is not None:
            body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
                return test(body[0].value, param_consts(f, f.node, call=n, known=known, bound=isinstance(n.func, ast.Attribute)), glob, look, depth - 1)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        a, b = constant(n.left, known), constant(n.comparators[0], known)
        if a is not UNKNOWN and b is not UNKNOWN:
            if isinstance(n.ops[0], (ast.Is, ast.Eq)):
                return a is b if a is None or b is None or isinstance(n.ops[0], ast.Is) and isinstance(a, bool) else a == b
            if isinstance(n.ops[0], (ast.IsNot, ast.NotEq)):
                return not (a is b if a is None or b is None else a == b)
    return None


class Effects:
    def __init__(self, model, glob=None, opaque=(), stop=()):
        self.m = model
        self.glob = dict(glob or {})
        self.opaque = set(opaque)
        self.stop = set(stop)
        self.memo = {}
        self.props = {}
        for c in model.classes.values():
            for n in c.getters:
                self.props.setdefault(n, []).append(c.name)
        self.writers = None

    # ---- types
    def ann_type(self, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            s = a.value.strip()
            return s if s in self.m.classes else None
        if isinstance(a, ast.Name):
            return a.id if a.id in self.m.classes else None
        return None

    def typ(self, n, sc):
        """class name of an expression, or None"""
        if isinstance(n, ast.Name):
            if n.id in sc.types:
                return sc.types[n.id]
            if n.id == "env":
                return "Environment"
            return None
        if isinstance(n, ast.Attribute):
            b = self.typ(n.value, sc)
            if b:
                for c in self.m.mro(b):
                    s = self.m.attr_types.get((c, n.attr))
                    if s and len(s) == 1:
                        return next(iter(s))
                if n.attr in ("successor", "predecessor") and b != "Qmember":
                    return None
            if b is None and n.attr in ("successor", "predecessor", "component", "queue"):
                return ATTR_HINTS.get(n.attr)
            h = ATTR_HINTS.get(n.attr)
            if h:
                return h
            s = self.m.attr_name_types.get(n.attr)
            if s and len(s) == 1 and b is None:
                return next(iter(s))
            return None
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                if n.func.id in self.m.classes:
                    return n.func.id
                if n.func.id == "super" and sc.cls:
                    mro = self.m.mro(sc.defcls or sc.cls)
                    return mro[1] if len(mro) > 1 else None
                f = self.m.functions.get(n.func.id)
                if f is not None:
                    return self.ann_type(f.node.returns)
            if isinstance(n.func, ast.Attribute):
                ts = self.targets(n.func.value, n.func.attr, sc)
                rs = {self.ann_type(f.node.returns) for f, _ in ts}
                if len(rs) == 1:
                    return next(iter(rs))
            return None
        if isinstance(n, ast.IfExp):
            a, b = self.typ(n.body, sc), self.typ(n.orelse, sc)
            return a if a == b else None
        return None

    def elem_type(self, n, sc):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "reversed", "sorted", "tuple", "set") and n.args:
            return self.elem_type(n.args[0], sc)
        if isinstance(n, ast.Attribute):
            if n.attr in ELEM_HINTS:
                return ELEM_HINTS[n.attr]
        t = self.typ(n, sc)
        if t and self.m.issub(t, "Queue"):
            return "Component"
        return None

    # ---- resolution
    def targets(self, recv, name, sc):
        """[(function, receiver class)] of recv.name(...)"""
        t = self.typ(recv, sc)
        if t is not None:
            f = self.m.method(t, name)
            if f is None:
                return []
            out = [(f, t)]
            sup = isinstance(recv, ast.Call) and isinstance(recv.func, ast.Name) and recv.func.id == "super"
            exact = isinstance(recv, ast.Name) and recv.id in sc.fresh or sup or isinstance(recv, ast.Name) and recv.id == "self"
            if sup:
                return [(f, sc.cls)]
            if not exact:
                for s in self.m.subclasses(t):
                    g = self.m.classes[s].methods.get(name)
                    if g is not None and g is not f:
                        out.append((g, s))
            return out
        if name in GENERIC:
            return []
        if isinstance(recv, ast.Name) and recv.id in sc.modules:
            return []
        return [(f, f.cls) for f in self.m.by_method.get(name, [])]

    # ---- one function
    def summary(self, fi, cls, consts, fresh=False):
        k = (fi.qual, fi.node.lineno, cls, tuple(sorted((a, repr(b)) for a, b in consts.items())), fresh)
        if k not in self.memo:
            sc = Scope(self, fi, cls, consts, fresh)
            sc.block(fi.node.body)
            self.memo[k] = (sc.effects, sc.calls)
        return k, self.memo[k]

    def reach(self, entries, skip=()):
        """entries: [(fi, cls, consts, fresh)]; yields (effect, chain) with chain a tuple of qualified names"""
        seen = set()
        stack = [((fi, cls, c, fr), (fi.qual,)) for fi, cls, c, fr in entries]
        out = []
        while stack:
            (fi, cls, c, fr), chain = stack.pop(0)
            if fi.qual in self.opaque or fi.name in self.opaque:
                continue
            k, (effs, calls) = self.summary(fi, cls, c, fr)
            if k in seen:
                continue
            seen.add(k)
            out.extend((e, chain) for e in effs)
            for (g, gc, cc, gf, line) in calls:
                if len(chain) < 14:
                    stack.append(((g, gc, cc, gf), chain + (g.qual,)))
        self.nfuncs = {k[0] for k in seen}
        return out


    def impure(self, funcs, W):
        """qualified names of the functions that may write something in W, for arbitrary arguments"""
        graph, bad, name, todo = {}, set(), {}, []
        for f in funcs:
            todo.append((f, f.cls, {}, False))
        while todo:
            fi, cls, c, fr = todo.pop()
            k, (effs, calls) = self.summary(fi, cls, c, fr)
            if k in graph:
                continue
            graph[k] = []
            if not c and not fr:
                name[k] = fi.qual
            if fi.qual in self.opaque or fi.name in self.opaque:
                continue
            if any(e.attr in W for e in effs):
                bad.add(k)
            for g, gc, cc, gf, _ in calls:
                kk, _s = self.summary(g, gc, cc, gf)
                graph[k].append(kk)
                if kk not in graph:
                    todo.append((g, gc, cc, gf))
        rev = {}
        for k, vs in graph.items():
            for v in vs:
                rev.setdefault(v, []).append(k)
        st = list(bad)
        while st:
            k = st.pop()
            for p in rev.get(k, ()):
                if p not in bad:
                    bad.add(p)
                    st.append(p)
        return {name[k] for k in bad if k in name}


class Scope:
    def __init__(self, E, fi, cls, consts, fresh):
        self.E, self.fi, self.cls, self.known = E, fi, cls or fi.cls, dict(consts)
        self.defcls = fi.cls
        self.effects, self.calls = [], []
        self.types, self.fresh, self.modules = {}, set(), {"math", "random", "re", "os", "sys", "json", "time", "np", "numpy", "collections", "itertools", "heapq", "array", "operator", "logging", "copy", "pickle", "io", "PIL", "Image", "ImageDraw", "ImageFont", "tkinter", "datetime", "functools", "statistics", "scipy", "pd", "pandas", "inspect", "types", "cv2", "urllib", "string", "traceback", "platform", "threading", "tempfile", "pathlib", "Path", "ast", "contextlib", "greenlet", "gl", "glu", "glut"}
        self.selfname = fi.posargs[0] if fi.cls and fi.posargs and not fi.is_static else None
        if self.selfname:
            self.types[self.selfname] = self.cls
            if fresh:
                self.fresh.add(self.selfname)
        for p in fi.posargs + fi.kwonly:
            if p not in self.types:
                t = E.ann_type(fi.annot.get(p))
                if t:
                    self.types[p] = t
        # locals bound once to something typed or new
        binds = {}
        params = set(fi.posargs + fi.kwonly) | {fi.vararg, fi.kwarg}
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        binds.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                binds.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n.target, ast.Name):
                    binds.setdefault(n.target.id, []).append(("elem", n.iter))
                else:
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            binds.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name):
                binds.setdefault(n.target.id, []).append(n if isinstance(n, ast.AugAssign) else n.value)
            elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                binds.setdefault(n.optional_vars.id, []).append(n.context_expr)
        for v, vals in binds.items():
            # a local that holds a condition of which the outcome is known
            if len(vals) == 1 and v not in params and (isinstance(vals[0], ast.Compare) or isinstance(vals[0], ast.UnaryOp) and isinstance(vals[0].op, ast.Not)) and v not in self.known:
                k = test(vals[0], self.known, E.glob, self.look)
                if k is not None:
                    self.known[v] = k
        for _ in range(2):
            for v, vals in binds.items():
                if v in params and v == self.selfname:
                    continue
                ts, fr = set(), v not in params
                for x in vals:
                    if x is None:
                        ts.add(None)
                        fr = False
                    elif isinstance(x, tuple):
                        ts.add(E.elem_type(x[1], self))
                        fr = False
                    elif isinstance(x, ast.AugAssign):
                        continue
                    else:
                        if isinstance(x, ast.Constant) and x.value is None:
                            continue
                        ts.add(E.typ(x, self))
                        fr = fr and self.is_fresh(x)
                if len(ts) == 1 and None not in ts:
                    if v not in params or v not in self.types:
                        self.types[v] = next(iter(ts))
                if fr:
                    self.fresh.add(v)

    def look(self, f):
        """the function that a call in this function reaches, when it is a method of the same object or a module function"""
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.selfname:
            return self.E.m.method(self.cls, f.attr)
        if isinstance(f, ast.Name):
            return self.E.m.functions.get(f.id)
        return None

    def is_fresh(self, x):
        if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Tuple, ast.Constant, ast.JoinedStr, ast.BinOp, ast.Compare, ast.Lambda)):
            return True
        if isinstance(x, ast.Name):
            return x.id in self.fresh and x.id != self.selfname or x.id in self.fresh
        if isinstance(x, ast.IfExp):
            return self.is_fresh(x.body) and self.is_fresh(x.orelse)
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name):
                return f.id in self.E.m.classes or f.id in ("list", "dict", "set", "tuple", "sorted", "str", "int", "float", "len", "min", "max", "sum", "abs", "round", "zip", "map", "filter", "enumerate", "range", "copy", "deepcopy", "frozenset", "open", "bytearray")
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name) and f.value.id in self.modules:
                    return True
                if isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id in self.modules:
                    return True
                if f.attr in ("copy", "split", "join", "format", "replace"):
                    return True
                if f.attr == "__class__" or isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "type":
                    return True
        return False

    # ---- statements; returns True when control does not go past the block
    def block(self, body):
        for s in body:
            if self.stmt(s):
                return True
        return False

    def stmt(self, s):
        E = self.E
        if isinstance(s, ast.If):
            v = test(s.test, self.known, E.glob, self.look)
            self.expr(s.test)
            if v is True:
                return self.block(s.body)
            if v is False:
                return self.block(s.orelse)
            a = self.block(s.body)
            b = self.block(s.orelse)
            return a and b and bool(s.orelse)
        if isinstance(s, ast.While):
            v = test(s.test, self.known, E.glob, self.look)
            self.expr(s.test)
            if v is not False:
                self.block(s.body)
            self.block(s.orelse)
            return v is True and not any(isinstance(n, ast.Break) for n in ast.walk(s))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter)
            t = E.typ(s.iter, self)
            if t and E.m.issub(t, "Queue"):
                self.invoke(E.m.method(t, "__iter__"), t, None, False, s)
            self.target(s.target, s)
            self.block(s.body)
            self.block(s.orelse)
            return False
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr)
                t = E.typ(i.context_expr, self)
                if t:
                    for nm in ("__enter__", "__exit__"):
                        f = E.m.method(t, nm)
                        if f:
                            self.invoke(f, t, None, self.is_fresh(i.context_expr), s)
            return self.block(s.body)
        if isinstance(s, ast.Try):
            a = self.block(s.body)
            for h in s.handlers:
                b = self.block(h.body)
                a = a and b
            self.block(s.orelse)
            f = self.block(s.finalbody)
            return f or a
        if isinstance(s, (ast.Return, ast.Raise)):
            for n in ast.iter_child_nodes(s):
                self.expr(n)
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.Assign):
            self.expr(s.value)
            for t in s.targets:
                self.target(t, s)
            return False
        if isinstance(s, ast.AugAssign):
            self.expr(s.value)
            self.target(s.target, s)
            return False
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value)
                self.target(s.target, s)
            return False
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.target(t, s)
            return False
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # a nested function may be called: its effects count
            sub = self.known
            self.known = {k: v for k, v in sub.items()}
            self.block(s.body)
            self.known = sub
            return False
        if isinstance(s, ast.Expr):
            self.expr(s.value)
            return False
        if isinstance(s, ast.Assert):
            self.expr(s.test)
            return False
        return False

    def root_fresh(self, n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in self.fresh:
                # own attribute of a new object: only if the object holds a new value, which we assume for containers
                return True
            n = n.value
        if isinstance(n, ast.Name):
            return n.id in self.fresh
        return self.is_fresh(n)

    def basename(self, n):
        t = self.E.typ(n, self)
        if t:
            return t
        try:
            return ast.unparse(n)
        except Exception:
            return "?"

    def target(self, t, s):
        E = self.E
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, s)
        elif isinstance(t, ast.Starred):
            self.target(t.value, s)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            if self.root_fresh(t):
                return
            bt = E.typ(t.value, self)
            st = E.m.setter(bt, t.attr) if bt else None
            if st is None and bt is None:
                cs = [c for c in E.m.classes.values() if t.attr in c.setters]
                if cs:
                    for c in cs:
                        self.invoke(c.setters[t.attr], c.name, None, False, s)
            if st is not None:
                self.invoke(st, bt, None, False, s)
                return
            self.effects.append(Effect(t.attr, self.basename(t.value), "writes", self.fi, s.lineno))
        elif isinstance(t, ast.Subscript):
            self.expr(t.value)
            self.expr(t.slice)
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if self.root_fresh(b):
                return
            if isinstance(b, ast.Attribute):
                self.effects.append(Effect(b.attr, self.basename(b.value), "changes an item of", self.fi, s.lineno))
            elif isinstance(b, ast.Name) and b.id not in self.types:
                self.effects.append(Effect(b.id, "(local)", "changes an item of", self.fi, s.lineno))
        elif isinstance(t, ast.Name):
            for n in ast.walk(self.fi.node):
                if isinstance(n, ast.Global) and t.id in n.names:
                    self.effects.append(Effect(t.id, "(module)", "writes", self.fi, s.lineno))
                    break

    def invoke(self, f, cls, call, fresh, node):
        if f is None:
            return
        c = param_consts(f, node, call, self.known) if call is not None else {}
        self.calls.append((f, cls, c, fresh, getattr(node, "lineno", 0)))

    def expr(self, n):
        if n is None or not isinstance(n, ast.AST):
            return
        E = self.E
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.IfExp):
                v = test(x.test, self.known, E.glob, self.look)
                stack.append(x.test)
                if v is not False:
                    stack.append(x.body)
                if v is not True:
                    stack.append(x.orelse)
                continue
            if isinstance(x, ast.BoolOp):
                for y in x.values:
                    stack.append(y)
                    v = test(y, self.known, E.glob, self.look)
                    if v is (False if isinstance(x.op, ast.And) else True):
                        break
                continue
            if isinstance(x, ast.Call):
                self.call(x)
            elif isinstance(x, ast.NamedExpr):
                self.target(x.target, x)
            elif isinstance(x, ast.Attribute) and x.attr in E.props and isinstance(x.ctx, ast.Load):
                bt = E.typ(x.value, self)
                cs = [bt] if bt else E.props[x.attr]
                for c in cs:
                    g = E.m.getter(c, x.attr)
                    if g is not None:
                        self.invoke(g, c, None, False, x)
            elif isinstance(x, ast.Compare):
                for op, y in zip(x.ops, x.comparators):
                    if isinstance(op, (ast.In, ast.NotIn)):
                        t = E.typ(y, self)
                        if t:
                            self.invoke(E.m.method(t, "__contains__"), t, None, False, x)
            elif isinstance(x, ast.comprehension):
                t = E.typ(x.iter, self)
                if t and E.m.issub(t, "Queue"):
                    self.invoke(E.m.method(t, "__iter__"), t, None, False, x.iter)
            elif isinstance(x, ast.Lambda):
                continue
            stack.extend(ast.iter_child_nodes(x))

    def call(self, n):
        E = self.E
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in ("super", "isinstance"):
                return
            if f.id in E.m.classes:
                g = E.m.method(f.id, "__init__")
                self.invoke(g, f.id, n, True, n)
                su = E.m.method(f.id, "setup")
                return
            if f.id == "setattr" and n.args:
                if not self.root_fresh(n.args[0]):
                    a = n.args[1]
                    self.effects.append(Effect(a.value if isinstance(a, ast.Constant) else "*", self.basename(n.args[0]), "sets", self.fi, n.lineno))
                return
            if f.id in E.m.functions:
                self.invoke(E.m.functions[f.id], None, n, False, n)
                return
            if f.id in ("len", "list", "str", "repr", "sorted", "tuple", "set", "sum", "min", "max", "any", "all", "reversed", "bool", "iter", "next") and n.args:
                t = E.typ(n.args[0], self)
                if t:
                    for nm in {"len": ("__len__",), "str": ("__str__", "__repr__"), "repr": ("__repr__",), "reversed": ("__reversed__",), "bool": ("__bool__", "__len__")}.get(f.id, ("__iter__",)):
                        self.invoke(E.m.method(t, nm), t, None, False, n)
            if f.id in HEAP and n.args:
                self.mutate(n.args[0], f.id, n)
            return
        if isinstance(f, ast.Attribute):
            if f.attr in HEAP and n.args and isinstance(f.value, ast.Name) and f.value.id in ("heapq", "bisect", "random"):
                self.mutate(n.args[0], f.attr, n)
                return
            rs = f.value
            if (isinstance(rs, ast.Attribute) and rs.attr in ("randomstream", "_randomstream")) or (isinstance(rs, ast.Name) and rs.id in ("randomstream", "random") and f.attr not in ("Random", "getstate")):
                self.effects.append(Effect("#random", ast.unparse(rs), "draws from", self.fi, n.lineno))
                return
            t = E.typ(f.value, self)
            ts = E.targets(f.value, f.attr, self)
            if f.attr == "__init__" and isinstance(f.value, ast.Name) and f.value.id in E.m.classes:
                ts = [(E.m.method(f.value.id, "__init__"), self.cls)]
                self.calls.extend((g, c, param_consts(g, n, None, self.known), self.selfname in self.fresh, n.lineno) for g, c in ts if g)
                return
            if f.attr in MUTATORS and not any(True for _ in ts):
                self.mutate(f.value, f.attr, n)
                return
            fresh = self.root_fresh(f.value) if isinstance(f.value, (ast.Name, ast.Attribute)) and isinstance(f.value, ast.Name) else self.is_fresh(f.value)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                fresh = self.selfname in self.fresh
            for g, c in ts:
                self.invoke(g, c, n, fresh, n)
            if not ts and t:
                # calling an attribute that is an object with __call__
                at = E.typ(f, self)
                if at:
                    self.invoke(E.m.method(at, "__call__"), at, n, False, n)
            return

    def mutate(self, b, how, n):
        while isinstance(b, ast.Subscript):
            b = b.value
        if self.root_fresh(b):
            return
        if isinstance(b, ast.Attribute):
            self.effects.append(Effect(b.attr, self.basename(b.value), how + "s", self.fi, n.lineno))
        elif isinstance(b, ast.Name):
            # a local name for something else: find what it stands for
            for x in ast.walk(self.fi.node):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.id for t in x.targets) and isinstance(x.value, ast.Attribute):
                    self.effects.append(Effect(x.value.attr, self.basename(x.value.value), how + "s", self.fi, n.lineno))
