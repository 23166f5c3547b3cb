"""Behaviour preserving rewrites of the whole source, to look for false alarms: python3 dev/refactor.py KIND IN OUT"""
import ast
import sys
import copy

COUNT = [0]


def fresh(p):
    COUNT[0] += 1
    return f"_{p}{COUNT[0]}"


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Invert(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Swap(ast.NodeTransformer):
    """a < b -> b > a, a == b -> b == a"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and not any(isinstance(x, (ast.Call, ast.Yield)) for s in (n.left, n.comparators[0]) for x in ast.walk(s)):
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Blocks(ast.NodeTransformer):
    def block(self, b):
        out = []
        for s in b:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.ClassDef, ast.Module)):
            return n
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, self.block(v))
        return n


class Temp(Blocks):
    """conditions and results through a local variable"""

    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
            t = fresh("cond")
            a = ast.Assign([name(t, ast.Store())], s.test)
            s.test = name(t)
            return [a, s]
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = fresh("result")
            return [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
        return s


class Aug(Blocks):
    """x += y -> x = x + y"""

    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and not (isinstance(s.value, (ast.List, ast.ListComp))):
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
        return s


class Nest(Blocks):
    """if c: ...; return / rest -> if c: ... else: rest; and/or -> nested ifs"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b):
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:]))]
        return b


class Flat(Blocks):
    """if c: ... return else: B -> if c: ... return; B"""

    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            e = s.orelse
            s.orelse = []
            return [s] + e
        return s


class AndNest(Blocks):
    """if a and b: X -> if a: if b: X"""

    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return s


class Morgan(ast.NodeTransformer):
    """a and b -> not (not a or not b), in conditions"""

    def cond(self, t):
        if isinstance(t, ast.BoolOp):
            o = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), self.cond(v)) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.cond(n.test)
        return n

    visit_While = visit_If


class Locals(ast.NodeTransformer):
    """self.env through a local, at the start of each method that uses it without assigning it"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if not n.args.args or n.args.args[0].arg != "self" or n.name == "__init__":
            return n
        es = [x for x in ast.walk(n) if isinstance(x, ast.Attribute) and x.attr == "env" and isinstance(x.value, ast.Name) and x.value.id == "self"]
        if len(es) < 2 or any(not isinstance(x.ctx, ast.Load) for x in es):
            return n

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if x.attr == "env" and isinstance(x.value, ast.Name) and x.value.id == "self":
                    return name("_local_env")
                return x

        inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and x is not n]
        if inner:
            return n
        doc = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        rest = [R().visit(s) for s in n.body[doc:]]
        n.body = n.body[:doc] + [ast.Assign([name("_local_env", ast.Store())], ast.Attribute(name("self"), "env", ast.Load()))] + rest
        return n


class Rename(ast.NodeTransformer):
    """rename locals that are not parameters"""

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        params = {a.arg for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
        fn = {f.name for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.ClassDef))}
        st = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} - params - fn
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "eval", "exec") for x in ast.walk(n)):
            return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in st:
                x.id = x.id + "_renamed"
            if isinstance(x, ast.ExceptHandler) and x.name in st:
                x.name += "_renamed"
        return n


class While(Blocks):
    """for x in range(n): -> while"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and not s.orelse and isinstance(s.target, ast.Name):
            if any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                return s
            i = fresh("i")
            m = fresh("n")
            return [ast.Assign([name(i, ast.Store())], ast.Constant(0)), ast.Assign([name(m, ast.Store())], s.iter.args[0]),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(m)]), [ast.Assign([s.target], name(i)), ast.Assign([name(i, ast.Store())], ast.BinOp(name(i), ast.Add(), ast.Constant(1)))] + s.body, [])]
        return s


class Comp(Blocks):
    """x = [e for ...] -> loop"""

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            g = s.value.generators[0]
            used = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            t = fresh("out")
            ren = {u: fresh(u) for u in used}
            c = copy.deepcopy(s.value)
            for x in ast.walk(c):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
            it = s.value.generators[0].iter
            g = c.generators[0]
            body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [c.elt], []))]
            for cond in reversed(g.ifs):
                body = [ast.If(cond, body, [])]
            s.value = name(t)
            return [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, it, body, []), s]
        return s


class Extract(ast.NodeTransformer):
    """the tail of each method (from a top level if on) into a helper method"""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not f.args.args or f.args.args[0].arg != "self" or f.name.startswith("__"):
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(f) if x is not f):
                continue
            if any(isinstance(x, ast.Name) and x.id in ("super", "locals", "inspect", "__class__") for x in ast.walk(f)):
                continue
            doc = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            k = next((i for i in range(doc + 1, len(f.body)) if isinstance(f.body[i], (ast.If, ast.For, ast.While, ast.With))), None)
            if k is None:
                continue
            tail, head = f.body[k:], f.body[doc:k]
            params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs] + [x.arg for x in (f.args.vararg, f.args.kwarg) if x]
            if any(isinstance(h, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Import, ast.ImportFrom)) for h in head):
                continue
            bound = params + [x.id for h in head for x in ast.walk(h) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
            used = {x.id for t in tail for x in ast.walk(t) if isinstance(x, ast.Name)}
            args = [b for b in dict.fromkeys(bound) if b in used and b != "self"]
            hn = "_part_of_" + f.name.strip("_")
            new.append(ast.FunctionDef(hn, ast.arguments([], [ast.arg("self")] + [ast.arg(a) for a in args], None, [], [], None, []), tail, [], None, type_params=[]) if sys.version_info >= (3, 12) else ast.FunctionDef(hn, ast.arguments([], [ast.arg("self")] + [ast.arg(a) for a in args], None, [], [], None, []), tail, []))
            f.body = f.body[:k] + [ast.Return(ast.Call(ast.Attribute(name("self"), hn, ast.Load()), [name(a) for a in args], []))]
        c.body = new
        return c


class Hoist(Blocks):
    """the first argument that is a call, through a local variable"""

    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) else None
        if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], (ast.Call, ast.BinOp)) and isinstance(c.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(c.func)):
            t = fresh("arg")
            a = ast.Assign([name(t, ast.Store())], c.args[0])
            c.args[0] = name(t)
            return [a, s]
        return s


class Ternary(Blocks):
    """if c: x = a else: x = b -> x = a if c else b"""

    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and len(s.body[0].targets) == 1 == len(s.orelse[0].targets) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
            return ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
            return ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        return s


class Unternary(Blocks):
    """x = a if c else b -> if c: x = a else: x = b"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], ast.Name):
            return ast.If(s.value.test, [ast.Assign(copy.deepcopy(s.targets), s.value.body)], [ast.Assign(s.targets, s.value.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
        return s


class WhileTrue(Blocks):
    """while c: B -> while True: if not c: break; B"""

    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body, [])
        return s


class Enumerate(Blocks):
    """for x in y -> for _, x in enumerate(y)"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ("range", "enumerate")):
            s.target = ast.Tuple([name(fresh("i"), ast.Store()), s.target], ast.Store())
            s.iter = ast.Call(name("enumerate"), [s.iter], [])
        return s


class Unpack(Blocks):
    """a = x; b = y -> a, b = x, y, for constants and names"""

    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            ok = all(isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Name) and isinstance(z.value, (ast.Constant, ast.Name, ast.Attribute)) for z in (p, s))
            if ok and p.targets[0].id not in {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}:
                out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
            else:
                out.append(s)
        return out


def helper(hn, args, body):
    a = ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in args], None, [], [], None, [])
    return ast.FunctionDef(hn, a, body, [], None, type_params=[]) if sys.version_info >= (3, 12) else ast.FunctionDef(hn, a, body, [])


class ExtractIf(ast.NodeTransformer):
    """bodies of ifs and loops into helper methods; conditions if COND"""
    COND = False

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not f.args.args or f.args.args[0].arg != "self":
                continue
            if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for x in ast.walk(f) if x is not f):
                continue
            local = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
            for n in list(ast.walk(f)):
                if f.name == "__getattribute__":
                    continue
                if isinstance(n, ast.If) and self.COND and isinstance(n.test, (ast.BoolOp, ast.Compare)) and not any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(n.test)):
                    used = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
                    if "super" in used:
                        continue
                    # a local that may be unbound is not handed over: only parameters, or assigned at the top before
                    args = [x for x in sorted(used & local) if x != "self"]
                    if any(isinstance(x, ast.BoolOp) for x in ast.walk(n.test)) and any(x not in {a.arg for a in f.args.args} for x in args):
                        continue
                    hn = fresh("test")
                    new.append(helper(hn, args, [ast.Return(n.test)]))
                    n.test = ast.Call(ast.Attribute(name("self"), hn, ast.Load()), [name(x) for x in args], [])
                if not self.COND and isinstance(n, (ast.If, ast.For)) and len(n.body) >= 2:
                    if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom, ast.ListComp, ast.GeneratorExp, ast.ExceptHandler, ast.Delete)) for b in n.body for x in ast.walk(b)):
                        continue
                    ids = [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name)]
                    if any(isinstance(x.ctx, ast.Store) for x in ids) or any(x.id in ("super", "locals", "inspect", "__class__") for x in ids):
                        continue
                    args = [x for x in sorted({x.id for x in ids} & local) if x != "self"]
                    hn = fresh("part")
                    new.append(helper(hn, args, n.body))
                    n.body = [ast.Expr(ast.Call(ast.Attribute(name("self"), hn, ast.Load()), [name(x) for x in args], []))]
        c.body = new
        return c


class ExtractCond(ExtractIf):
    COND = True


KINDS = {"hoist": Hoist, "ternary": Ternary, "unternary": Unternary, "whiletrue": WhileTrue, "enumerate": Enumerate, "unpack": Unpack, "extractif": ExtractIf, "extractcond": ExtractCond, "invert": Invert, "swap": Swap, "temp": Temp, "aug": Aug, "nest": Nest, "flat": Flat, "andnest": AndNest, "morgan": Morgan, "locals": Locals, "rename": Rename, "while": While, "comp": Comp, "extract": Extract, "plain": ast.NodeTransformer}

if __name__ == "__main__":
    kind, src, dst = sys.argv[1:]
    t = ast.parse(open(src, encoding="utf-8").read())
    for k in kind.split("+"):
        t = KINDS[k]().visit(t)
        ast.fix_missing_locations(t)
    ast.fix_missing_locations(t)
    open(dst, "w", encoding="utf-8").write(ast.unparse(t))
