"""Hash-consed value numbers (terms) used by the path-sensitive dataflow engine.

A term is a value number: two expressions that get the same term have the same value on the
path that is being analysed.  Nothing is executed and nothing is handed to a solver; equality
of terms is identity.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "id", "_r")

    def __init__(self, op, a, id):
        self.op = op
        self.a = a
        self.id = id
        self._r = None

    def __repr__(self):
        if self._r is None:
            self._r = show(self)
        return self._r

    def __lt__(self, other):
        return repr(self) < repr(other)


_table = {}


def mk(op, *a):
    k = (op, a)
    t = _table.get(k)
    if t is None:
        t = T(op, a, len(_table))
        _table[k] = t
    return t


def const(v):
    # bool/int/float/str kept apart except that 1 == 1.0 (numeric value counts)
    if isinstance(v, bool) or v is None or isinstance(v, str) or isinstance(v, bytes) or v is Ellipsis:
        return mk("const", type(v).__name__, v)
    if isinstance(v, (int, float)):
        if v != v:
            return mk("const", "nan", "nan")
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else mk("lin", Fraction(0), ((INF, Fraction(-1)),))
        return lin_const(Fraction(v))
    return mk("const", type(v).__name__, repr(v))


def lin_const(fr):
    return mk("lin", fr, ())


INF = mk("glob", "inf")
TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
NONE = mk("const", "NoneType", None)


def is_const(t):
    return t.op == "const" or (t.op == "lin" and not t.a[1]) or t is INF


def is_num_const(t):
    return t.op == "lin" and not t.a[1]


def num_value(t):
    return t.a[0] if is_num_const(t) else None


def lin_parts(t):
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    if t is TRUE:
        return Fraction(1), {}
    if t is FALSE:
        return Fraction(0), {}
    return Fraction(0), {t: Fraction(1)}


def mk_lin(c, parts):
    items = tuple(sorted(((k, v) for k, v in parts.items() if v != 0), key=lambda kv: kv[0].id))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", Fraction(c), items)


def add(a, b, sb=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    p = dict(pa)
    for k, v in pb.items():
        p[k] = p.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, p)


def sub(a, b):
    return add(a, b, -1)


def scale(a, f):
    c, p = lin_parts(a)
    return mk_lin(c * f, {k: v * f for k, v in p.items()})


def neg(a):
    return scale(a, Fraction(-1))


def mul(a, b):
    if is_num_const(a):
        return scale(b, num_value(a))
    if is_num_const(b):
        return scale(a, num_value(b))
    # product of two non constants: pull numeric factors out, commutative
    fa, xa = prod_parts(a)
    fb, xb = prod_parts(b)
    xs = dict(xa)
    for k, v in xb.items():
        xs[k] = xs.get(k, 0) + v
    return mk_prod(fa * fb, xs)


def prod_parts(t):
    if t.op == "lin":
        c, p = lin_parts(t)
        if c == 0 and len(p) == 1:
            (k, v), = p.items()
            f, x = prod_parts(k)
            return f * v, x
    if t.op == "prod":
        return Fraction(1), dict(t.a[0])
    return Fraction(1), {t: 1}


def mk_prod(f, xs):
    items = tuple(sorted(((k, v) for k, v in xs.items() if v != 0), key=lambda kv: kv[0].id))
    if not items:
        return lin_const(Fraction(f))
    if len(items) == 1 and items[0][1] == 1:
        return scale(items[0][0], f)
    return scale(mk("prod", items), f)


def div(a, b):
    if is_num_const(b) and num_value(b) != 0:
        return scale(a, 1 / num_value(b))
    fa, xa = prod_parts(a) if not is_num_const(a) else (num_value(a), {})
    fb, xb = prod_parts(b)
    xs = dict(xa)
    for k, v in xb.items():
        xs[k] = xs.get(k, 0) - v
    if fb == 0:
        return mk("div", a, b)
    return mk_prod(fa / fb, xs)


def orient(t):
    """canonical orientation of a linear form: returns (base-without-const, const, flipped)"""
    c, p = lin_parts(t)
    if not p:
        return None, c, False
    items = sorted(p.items(), key=lambda kv: kv[0].id)
    f = items[0][1]
    flipped = f < 0
    base = mk_lin(Fraction(0), {k: v / f for k, v in items})
    return base, c / f, flipped


def show(t):
    op, a = t.op, t.a
    if op == "const":
        return repr(a[1]) if a[0] != "nan" else "nan"
    if op == "lin":
        out = []
        for k, v in a[1]:
            if v == 1:
                out.append("+ " + repr(k))
            elif v == -1:
                out.append("- " + repr(k))
            else:
                out.append(("+ " if v > 0 else "- ") + f"{float(abs(v)):g}*{k!r}")
        if a[0] != 0 or not out:
            out.append(("+ " if a[0] >= 0 else "- ") + f"{float(abs(a[0])):g}")
        s = " ".join(out)
        if s.startswith("+ "):
            s = s[2:]
        return "(" + s + ")" if len(out) > 1 else s
    if op == "prod":
        return "*".join(f"{k!r}" + (f"^{v}" if v != 1 else "") for k, v in a[0])
    if op in ("sym", "glob"):
        return str(a[0])
    if op == "attr":
        return f"{a[0]!r}.{a[1]}" + (f"@{a[2]}" if len(a) > 2 and a[2] else "")
    if op == "elem":
        return f"{a[0]!r}[#{a[1]}]"
    if op == "idx":
        return f"{a[0]!r}[{a[1]!r}]" + (f"@{a[2]}" if len(a) > 2 and a[2] else "")
    if op == "cmp":
        k = a[0]
        if k == "lt":
            return f"{a[1]!r} < {float(-a[2]):g}"
        if k == "le":
            return f"{a[1]!r} <= {float(-a[2]):g}"
        sym = {"eq": "==", "in": "in"}.get(k, k)
        if k == "truthy":
            return f"bool({a[1]!r})"
        if k == "isinst":
            return f"isinstance({a[1]!r}, {'|'.join(a[2])})"
        if k == "more":
            return f"len({a[1]!r}) > {a[2]}"
        if len(a) == 2:
            return f"{a[1]!r} is {k}"
        return f"{a[1]!r} {sym} {a[2]!r}"
    if op == "not":
        return f"not {a[0]!r}"
    if op == "new":
        return f"<{a[0]}#{a[1]}>"
    if op in ("tuple", "list", "set"):
        return op + "(" + ", ".join(map(repr, a)) + ")"
    if op == "app":
        return f"{a[0]!r}(" + ", ".join(map(repr, a[1:])) + ")"
    if op == "pure":
        return f"{a[0]}(" + ", ".join(map(repr, a[1:])) + ")"
    return f"{op}(" + ", ".join(map(str, a)) + ")"
