"""Path-sensitive forward dataflow over the syntax tree with value numbering.

For one entry function the engine enumerates its acyclic paths (loops are taken 0..k times),
inlines resolved helpers, and yields for every path: the literals that hold (path facts), the
ordered list of effects (writes, calls of primitives, tallies, container mutations) with the
value numbers of their operands, and the way the path ends.  Feasibility is decided only by
direct contradiction between literals and by interval reasoning on one linear form.
"""
import ast
import math
import itertools
import re
from fractions import Fraction
from . import terms as tm
from .terms import mk, const, TRUE, FALSE, NONE, INF
from .model import Model, Func, own_nodes, MUTATORS, ELEM_HINTS

ENV = mk("sym", "ENV")
NINF = tm.neg(INF)
STR = mk("sym", "<text>")


class Ev:
    __slots__ = ("kind", "base", "name", "value", "args", "line", "fn", "facts", "old", "loop", "extra", "seq")

    def __init__(self, kind, base=None, name=None, value=None, args=None, line=0, fn="", facts=None, old=None, loop=(), extra=None):
        self.kind = kind
        self.base = base
        self.name = name
        self.value = value
        self.args = args
        self.line = line
        self.fn = fn
        self.facts = facts
        self.old = old
        self.loop = loop
        self.extra = extra

    def __repr__(self):
        if self.kind == "write":
            return f"L{self.line} {self.base!r}.{self.name} := {self.value!r}"
        if self.kind == "call":
            a = ", ".join(f"{k}={v!r}" for k, v in (self.args or {}).items())
            return f"L{self.line} {self.base!r} -> {self.name}({a})"
        return f"L{self.line} {self.kind} {self.base!r} {self.name} {self.value!r} {self.args!r}"


class St:
    __slots__ = ("env", "heap", "epoch", "facts", "iv", "ev", "fn", "cls", "stack", "loop", "intry", "uniq")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.epoch = {}
        self.facts = {}
        self.iv = {}
        self.ev = None  # cons list (prev, Ev)
        self.fn = None
        self.cls = None
        self.stack = ()
        self.loop = ()
        self.intry = 0
        self.uniq = 0

    def clone(self):
        s = St.__new__(St)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.epoch = dict(self.epoch)
        s.facts = self.facts
        s.iv = self.iv
        s.ev = self.ev
        s.fn = self.fn
        s.cls = self.cls
        s.stack = self.stack
        s.loop = self.loop
        s.intry = self.intry
        s.uniq = self.uniq
        return s

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        for i, x in enumerate(out):
            x.seq = i
        return out


MODULE = mk("sym", "module")


class Raise:
    """pending exception (outcome / value)"""

    def __init__(self, name, line=0, fn="", explicit=True):
        self.name = name
        self.line = line
        self.fn = fn
        self.explicit = explicit

    def __repr__(self):
        return f"raise {self.name}@{self.line}"


class Path:
    def __init__(self, st, outcome):
        self.st = st
        self.facts = st.facts
        self.events = st.events()
        self.outcome = outcome  # ('return', term) | ('raise', Raise)
        self.heap = st.heap

    @property
    def raised(self):
        return self.outcome[0] == "raise"


class Truncated(Exception):
    pass


PURE_BUILTINS = {
    "len", "abs", "int", "float", "str", "bool", "isinstance", "hasattr", "getattr", "type", "round", "sum", "sorted", "set", "list", "tuple",
    "dict", "repr", "id", "hash", "range", "enumerate", "zip", "reversed", "iter", "min", "max", "any", "all", "callable", "issubclass", "map", "filter", "hex", "ord", "chr", "frozenset", "divmod", "pow",
}

NAMEFUNCS = {"name", "base_name", "object_to_str"}
TEXTFUNCS = {
    "name", "lineno_txt", "_modetxt", "print_trace", "time_to_str", "duration_to_str", "_prioritytxt", "_urgenttxt", "merge_blanks",
    "filename_lineno_to_str", "object_to_str", "un_na", "_frame_to_lineno", "rpad", "pad", "fn", "_get_caller_frame", "base_name",
}


def and_facts(st, atom, val):
    """assume a canonical atom; returns new state or None"""
    d = decide(st, atom)
    if d is not None:
        return st if d == val else None
    s = st.clone()
    f = dict(s.facts)
    f[atom] = val
    s.facts = f
    if atom.op == "cmp" and atom.a[0] in ("lt", "le"):
        s.iv = _iv_add(s.iv, atom, val)
        if s.iv is None:
            return None
    return s


def _iv_add(iv, atom, val):
    k, base, c = atom.a  # lt: base < -c ; le: base <= -c
    bound = -c
    lo, los, hi, his = iv.get(base, (None, False, None, False))
    if val:
        strict = k == "lt"
        if hi is None or bound < hi or (bound == hi and strict and not his):
            hi, his = bound, strict
    else:
        strict = k == "le"  # not (base <= b)  -> base > b
        if lo is None or bound > lo or (bound == lo and strict and not los):
            lo, los = bound, strict
    if lo is not None and hi is not None:
        if lo > hi or (lo == hi and (los or his)):
            return None
    out = dict(iv)
    out[base] = (lo, los, hi, his)
    return out


def is_int(t):
    return (t.op == "attr" and t.a[1] in ("_length", "_interrupt_level")) or (t.op == "pure" and t.a[0] == "len")


def cmp_lt(a, b, strict=True):
    """a < b (or a <= b) as a canonical literal: TRUE/FALSE or atom or not(atom)"""
    if a is b:
        return FALSE if strict else TRUE
    if a is INF and tm.is_num_const(b):
        return FALSE
    if b is INF and tm.is_num_const(a):
        return TRUE
    if a is INF or b is NINF:
        if strict:
            return FALSE
    elif b is INF or a is NINF:
        if not strict or a is NINF and b is INF:
            return TRUE
    L = tm.sub(a, b)
    base, c, flipped = tm.orient(L)
    if base is None:
        v = tm.lin_parts(L)[0]
        return TRUE if (v < 0 or (v == 0 and not strict)) else FALSE
    # L = f*(base + c), f sign = flipped ; L<0 <=> base + c < 0 (f>0) or base + c > 0 (f<0)
    if is_int(base) and c.denominator == 1:
        # integers: normalise to strict form "base < n"
        if not flipped:
            # base < -c  or base <= -c -> base < -c+1
            n = -c if strict else -c + 1
            return mk("cmp", "lt", base, -n)
        # base > -c <=> not base < -c+1 ; base >= -c <=> not base < -c
        n = -c + 1 if strict else -c
        return mk("not", mk("cmp", "lt", base, -n))
    if not flipped:
        return mk("cmp", "lt" if strict else "le", base, c)
    return mk("not", mk("cmp", "le" if strict else "lt", base, c))


DICT_ATTRS = {"_requests", "_claims", "_qmembers"}


def is_text(t):
    if t.op == "attr":
        return t.a[1] == "__name__"
    if t.op == "sym":
        return isinstance(t.a[0], str) and t.a[0].startswith("text:")
    if t.op == "pure":
        return t.a[0] in ("text.lower", "text.upper")
    return t.op == "cat" or t.op == "fmt" or (t.op == "const" and t.a[0] == "str")


def cat(*parts):
    """concatenation of texts; symbolic parts stand for texts that are not empty"""
    out = []
    for p in parts:
        for q in p.a if p.op == "cat" else (p,):
            if q.op == "const" and q.a[0] == "str":
                if q.a[1] == "":
                    continue
                if out and out[-1].op == "const":
                    out[-1] = const(out[-1].a[1] + q.a[1])
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and is_text(out[0]):
        return out[0]
    return mk("cat", *out)


def fmt(t):
    """str(t)"""
    if is_text(t):
        return t
    if t.op == "const" and t.a[0] in ("NoneType", "bool"):
        return const(str(t.a[1]))
    if tm.is_num_const(t) and tm.num_value(t).denominator == 1:
        return const(str(int(tm.num_value(t))))
    return mk("fmt", t)


def text_eq(a, b):
    """None if not known"""
    for x, y in ((a, b), (b, a)):
        if x.op == "cat":
            if y.op == "const":
                if y.a[0] != "str":
                    return False
                s = y.a[1]
                if len(s) < sum(len(q.a[1]) if q.op == "const" else 1 for q in x.a):
                    return False
                if x.a[0].op == "const" and not s.startswith(x.a[0].a[1]) or x.a[-1].op == "const" and not s.endswith(x.a[-1].a[1]):
                    return False
    return None


def text_len(t):
    """length of a text; a symbolic part is not empty"""
    r = const(0)
    for q in t.a if t.op == "cat" else (t,):
        r = tm.add(r, const(len(q.a[1])) if q.op == "const" else tm.add(const(1), mk("pure", "len", mk("pure", "text.tail", q))))
    return r


def text_in(a, b):
    """None if not known"""
    pa, pb = (t.a if t.op == "cat" else (t,) for t in (a, b))
    if b.op == "const":
        if sum(len(q.a[1]) if q.op == "const" else 1 for q in pa) > len(b.a[1]) or any(q.op == "const" and q.a[1] not in b.a[1] for q in pa):
            return False
        if a.op == "const":
            return True
    elif a.op == "const" and any(q.op == "const" and a.a[1] in q.a[1] for q in pb):
        return True
    return None


def cmp_eq(a, b):
    if a is b:
        return TRUE
    if b is NONE and a.op in ("sym", "cat", "fmt") and is_text(a) or a is NONE and b.op in ("sym", "cat", "fmt") and is_text(b):
        return FALSE
    if a.op == "cat" or b.op == "cat":
        r = text_eq(a, b)
        if r is not None:
            return TRUE if r else FALSE
        return mk("cmp", "eq", a, b)
    if tm.is_const(a) and tm.is_const(b):
        return FALSE
    if a.op in ("new",) and b.op in ("new", "const"):
        return FALSE
    if a.op == "glob" and b.op == "glob" and a.a[0].startswith("operator.") and b.a[0].startswith("operator."):
        return FALSE
    if b.op in ("new",) and a.op in ("const",):
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a) or any(cmp_eq(x, y) is FALSE for x, y in zip(a.a, b.a)):
            return FALSE
        if all(cmp_eq(x, y) is TRUE for x, y in zip(a.a, b.a)):
            return TRUE
        return mk("cmp", "eq", a, b)
    if a.op in ("list", "tuple", "lambda") and b.op == "const":
        return FALSE
    if b.op in ("list", "tuple", "lambda") and a.op == "const":
        return FALSE
    if a is STR or b is STR:
        return mk("cmp", "eq", a, b)
    for x, y in ((a, b), (b, a)):
        if y is NONE and x.op == "idx" and x.a[0].op == "attr" and x.a[0].a[1] == "_qmembers":
            return FALSE
        if y is NONE and x.op in ("lin", "prod", "div"):
            return FALSE  # the result of arithmetic
        if y is INF and x.op == "lin" and dict(x.a[1]).get(INF) == 1:
            return TRUE  # inf plus something finite
    # queue walk end:  qm(q,i,len) == q._tail
    for x, y in ((a, b), (b, a)):
        if x.op == "qm" and y.op == "attr" and y.a[1] in ("_tail", "_head") and y.a[0] is x.a[0]:
            i = x.a[1]
            if y.a[1] == "_tail" and i >= 0:
                return neg(cmp_lt(const(i), x.a[2]))
            if y.a[1] == "_head" and i < 0:
                return neg(cmp_lt(const(-i - 1), x.a[2]))
            if y.a[1] == "_head" and i >= 0:
                return FALSE
            if y.a[1] == "_tail" and i < 0:
                return FALSE
        if x.op == "qm" and y.op == "qm" and x.a[0] is y.a[0] and x.a[2] is y.a[2] and (x.a[1] < 0) == (y.a[1] < 0):
            return FALSE
    if a.op == "elem" and b.op == "elem" and a.a[0] is b.a[0] and a.a[1] != b.a[1] and (a.a[1] >= 0) == (b.a[1] >= 0):
        c = a.a[0]
        while c.op == "pure" and c.a[0] in ("list", "keys") and len(c.a) == 2:
            c = c.a[1]
        if c.op == "attr" and c.a[1] in DICT_ATTRS:
            return FALSE  # keys of a dictionary are different
    d = tm.sub(a, b) if a.op == "lin" or b.op == "lin" else None
    if d is INF or d is not None and d.op == "lin" and len(d.a[1]) == 1 and d.a[1][0][0] is INF:
        return FALSE
    num = lambda t: t.op == "lin" or is_int(t)
    if (num(a) and not tm.is_const(a)) or (num(b) and not tm.is_const(b)):
        base, c, fl = tm.orient(tm.sub(a, b))
        if base is not None:
            if is_int(base) and c == 0:
                # length == 0  <=> length < 1
                return mk("cmp", "lt", base, Fraction(-1))
            if is_int(base) and c > 0:
                return FALSE  # a length is not negative
            return mk("cmp", "eq0", base, c)
        return TRUE if c == 0 else FALSE
    if tm.is_const(a) and not tm.is_const(b):
        a, b = b, a
    elif not (tm.is_const(b)) and a.id > b.id:
        a, b = b, a
    if is_int(a) and tm.is_num_const(b) and tm.num_value(b) == 0:
        return mk("cmp", "lt", a, Fraction(-1))
    return mk("cmp", "eq", a, b)


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


EMPTYISH = ("list", "tuple", "set")


def truth(t):
    """canonical literal for bool(t)"""
    if t.op == "const":
        return TRUE if t.a[1] and t.a[0] != "nan" else FALSE
    if tm.is_num_const(t):
        return TRUE if tm.num_value(t) != 0 else FALSE
    if t.op in ("cmp", "not"):
        return t
    if t.op in EMPTYISH:
        return TRUE if t.a else FALSE
    if t is INF or t.op in ("lambda", "func", "qm", "cat", "fmt"):
        return TRUE
    if t.op == "lin":
        return neg(cmp_eq(t, const(0)))
    if is_int(t):
        return neg(cmp_lt(t, const(1)))
    if t.op == "pure" and t.a[0] == "qlist":
        return neg(cmp_lt(t.a[2], const(1)))
    if t.op == "pure" and t.a[0] in ("list", "keys", "tuple", "iter", "reversed", "sorted", "set", "items", "values", "enumerate"):
        return truth(t.a[1])
    if t.op == "new" and t.a[0] not in ("list", "dict", "set", "OrderedDict"):
        return TRUE
    return mk("cmp", "truthy", t)


def decide(st, lit):
    """True/False/None for a literal under the path facts"""
    if lit is TRUE:
        return True
    if lit is FALSE:
        return False
    if lit.op == "not":
        d = decide(st, lit.a[0])
        return None if d is None else not d
    f = st.facts
    v = f.get(lit)
    if v is not None:
        return v
    if lit.op != "cmp":
        lit = truth(lit)
        if lit.op != "cmp":
            return decide(st, lit)
        v = f.get(lit)
        if v is not None:
            return v
    k = lit.a[0]
    if k == "eq":
        a, b = lit.a[1], lit.a[2]
        if tm.is_const(b):
            if tm.is_num_const(b):
                e = f.get(mk("cmp", "eq0", a, -tm.num_value(b)))
                if e is not None:
                    return e
            for (x, val) in f.items():
                if val and x.op == "cmp" and x.a[0] == "eq" and x.a[1] is a and tm.is_const(x.a[2]) and x.a[2] is not b:
                    return False
            if b is NONE:
                tv = f.get(mk("cmp", "truthy", a))
                if tv:
                    return False
                for (x, val) in f.items():
                    if val and x.op == "cmp" and x.a[0] == "isinst" and x.a[1] is a:
                        return False
                    if x.op == "cmp" and x.a[0] in ("lt", "le") and a in dict(tm.lin_parts(x.a[1])[1]):
                        return False
        else:
            L = tm.sub(a, b)
            base, c, fl = tm.orient(L)
            if base is not None and base in st.iv:
                lo, los, hi, his = st.iv[base]
                x = -c
                if (lo is not None and (x < lo or (x == lo and los))) or (hi is not None and (x > hi or (x == hi and his))):
                    return False
    elif k in ("lt", "le", "eq0"):
        base, c = lit.a[1], lit.a[2]
        r = st.iv.get(base)
        x = -c
        if r is not None:
            lo, los, hi, his = r
            if k != "eq0" and (hi == x and not his or lo == x and not los):
                # the bound itself is excluded when equality is
                ne = f.get(mk("cmp", "eq0", base, c)) is False
                cc0, p0 = tm.lin_parts(base)
                if not ne and cc0 == 0 and c == 0 and len(p0) == 2 and sum(p0.values()) == 0:
                    e0 = cmp_eq(*p0)
                    ne = f.get(e0) is False
                if ne:
                    his, los = his or hi == x, los or lo == x
            if k == "lt":
                if hi is not None and (hi < x or (hi == x and his)):
                    return True
                if lo is not None and lo >= x:
                    return False
            elif k == "le":
                if hi is not None and hi <= x:
                    return True
                if lo is not None and (lo > x or (lo == x and los)):
                    return False
            else:
                if lo is not None and hi is not None and lo == hi == x:
                    return True
                if (lo is not None and (x < lo or (x == lo and los))) or (hi is not None and (x > hi or (x == hi and his))):
                    return False
        e = f.get(mk("cmp", "eq0", base, c))
        if e:
            return k == "le"
        # a - b with a == b known
        cc, p = tm.lin_parts(base)
        if c == 0 and len(p) == 2:
            (t1, v1), (t2, v2) = p.items()
            if v1 == -v2:
                e = f.get(cmp_eq(t1, t2))
                if e:
                    return k == "le"
        if len(p) == 1:
            (t1, v1), = p.items()
            if k == "eq0" and v1 == 1 and f.get(mk("cmp", "eq", t1, tm.lin_const(x))) is False:
                return False
            for (y, val) in f.items():
                if val and y.op == "cmp" and y.a[0] == "eq" and y.a[1] is t1 and (tm.is_num_const(y.a[2])):
                    v = tm.num_value(y.a[2])
                    return (v < x) if k == "lt" else (v <= x) if k == "le" else v == x
        if is_int(base) and k == "lt" and x <= 0:
            return False
        if k == "lt" and base.op == "pure" and base.a[0] == "len":
            for (y, val) in f.items():
                if y.op == "cmp" and y.a[0] == "more" and y.a[1] is base.a[1]:
                    if val and y.a[2] + 1 >= x:
                        return False
                    if not val and y.a[2] < x:
                        return True
            b = f.get(mk("cmp", "truthy", base.a[1]))
            if b is False and x > 0:
                return True
            if b and x <= 1:
                return False
    elif k == "truthy":
        a = lit.a[1]
        r = st.iv.get(mk("pure", "len", a))
        if r is not None:
            lo, los, hi, his = r
            if hi is not None and (hi < 1 or (hi == 1 and his)):
                return False
            if lo is not None and (lo >= 1 or (lo == 0 and los)):
                return True
        for (x, val) in f.items():
            if val and x.op == "cmp" and x.a[0] == "eq" and x.a[1] is a and tm.is_const(x.a[2]):
                return truth(x.a[2]) is TRUE
            if val and x.op == "cmp" and x.a[0] == "isinst" and x.a[1] is a and x.a[2] and all(c in ("Resource", "State", "Monitor", "Component", "Environment") for c in x.a[2]):
                return True
    elif k == "more":
        x, n = lit.a[1], lit.a[2]
        r = st.iv.get(mk("pure", "len", x))
        if r is not None:
            lo, los, hi, his = r
            if hi is not None and (hi < n + 1 or (hi == n + 1 and his)):
                return False
            if lo is not None and lo >= n + 1:
                return True
        for (y, val) in f.items():
            if y.op == "cmp" and y.a[0] == "more" and y.a[1] is x:
                if val and y.a[2] >= n:
                    return True
                if not val and y.a[2] <= n:
                    return False
        if f.get(mk("cmp", "truthy", x)) is False:
            return False
    elif k == "isinst":
        a, cl = lit.a[1], lit.a[2]
        for (x, val) in f.items():
            if x.op == "cmp" and x.a[0] == "isinst" and x.a[1] is a:
                if val and set(x.a[2]) <= set(cl):
                    return True
                if not val and set(cl) <= set(x.a[2]):
                    return False
                if val and not (set(x.a[2]) & set(cl)) and not any(_related(p, q) for p in x.a[2] for q in cl):
                    return False
            if x.op == "cmp" and val and x.a[0] == "eq" and x.a[1] is a and x.a[2] is NONE:
                return False
    return None


_REL_MODEL = [None]


def _related(p, q):
    m = _REL_MODEL[0]
    if m is None or p not in m.classes or q not in m.classes:
        # builtin types: distinct builtin sequence types are unrelated
        bt = {"tuple", "list", "str", "dict", "set", "int", "float", "bool"}
        if p in bt and q in bt:
            return {p, q} == {"int", "bool"}
        if (p in bt) != (q in bt):
            return False
        return True
    return m.issub(p, q) or m.issub(q, p)


class Engine:
    def __init__(self, model, primitives=(), handlers=None, assume=None, loop_k=1, max_paths=6000, max_depth=7, noinline=(), only_inline=None, merge_env=True, havoc_after_switch=True, while_k=None, trace=False, unroll_known=4, skip=(), param_types=None, mute=(), recurse=1, strings=False):
        self.m = model
        self.mute = set(mute)
        self.strings = strings  # follow the contents of texts
        self.recurse = recurse  # how often a function may occur on the call stack
        _REL_MODEL[0] = model
        self.prim = set(primitives)
        self.handlers = handlers or {}
        self.assumef = assume or {}
        self.k = loop_k
        self.wk = while_k if while_k is not None else loop_k
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.noinline = set(noinline)
        self.only_inline = only_inline
        self.merge_env = merge_env
        self.trace = trace
        self.truncated = False
        self.steps = 0
        self.stats = {"inlined": 0, "opaque": 0, "forks": 0, "merged": 0}
        self.inlined_funcs = set()
        self._loads = {}
        self._modcache = {}
        self.skip = set(skip)
        self.param_types = param_types or {}
        self.opaque_calls = set()

    # ------------------------------------------------------------ running
    def run(self, fi, args=None, cls=None, pre=None):
        """analyse function fi; args: param -> term (default symbolic)"""
        self.truncated = False
        st = St()
        st.fn = fi.qual
        st.cls = cls or fi.cls
        st.stack = (fi.qual,)
        params = list(fi.posargs) + list(fi.kwonly)
        if fi.vararg:
            params.append(fi.vararg)
        if fi.kwarg:
            params.append(fi.kwarg)
        for i, p in enumerate(params):
            if args and p in args:
                st.env[p] = args[p]
            elif i == 0 and fi.cls and not fi.is_static:
                st.env[p] = ENV if (self.merge_env and self.m.issub(st.cls, "Environment")) else mk("sym", "self")
            else:
                st.env[p] = mk("sym", "arg:" + p)
        states = [st]
        if pre:
            states = pre(self, st)
        out = []
        for s in states:
            for s2, oc in self.block(fi.node.body, s, frozenset()):
                if oc is None:
                    oc = ("return", NONE)
                out.append(Path(s2, oc))
        return out

    def tick(self, n):
        if n > self.max_paths:
            self.truncated = True
            raise Truncated()

    # ------------------------------------------------------------ statements
    def loads(self, node):
        k = id(node)
        r = self._loads.get(k)
        if r is None:
            r = frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load))
            self._loads[k] = r
        return r

    def block(self, stmts, st, live):
        res = []
        cur = [(st, None)]
        lives = [live] * (len(stmts) + 1)
        l = live
        for i in range(len(stmts) - 1, -1, -1):
            lives[i] = l
            l = l | self.loads(stmts[i])
        for i, s in enumerate(stmts):
            nxt = []
            for (s0, _) in cur:
                for r in self.stmt(s, s0, lives[i]):
                    if r[1] is None:
                        nxt.append(r)
                    else:
                        res.append(r)
            compound = isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Expr, ast.Assign))
            if compound and len(nxt) > 1:
                nxt = self.merge(nxt, lives[i])
            self.tick(len(nxt) + len(res))
            cur = nxt
            if not cur:
                break
        return res + cur

    def merge(self, items, live):
        groups = {}
        order = []
        for (s, oc) in items:
            for n in list(s.env):
                if n not in live and n != "self":
                    del s.env[n]
            key = (frozenset(s.env.items()), frozenset(s.heap.items()), frozenset(s.epoch.items()), id(s.ev) if s.ev else 0, oc, s.loop)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(s)
        out = []
        for k in order:
            g = groups[k]
            changed = len(g) > 1
            while changed:
                changed = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        fi, fj = g[i].facts, g[j].facts
                        if fi is fj or fi == fj:
                            del g[j]
                            changed = True
                            break
                        # complementary in exactly one literal (numeric pairs lt/le included)
                        if len(fi) == len(fj):
                            d = [x for x in fi if fj.get(x) != fi[x]]
                            if len(d) == 1 and d[0] in fj:
                                f = {x: v for x, v in fi.items() if x is not d[0]}
                                s = g[i].clone()
                                s.facts = f
                                s.iv = {}
                                for x, v in f.items():
                                    if x.op == "cmp" and x.a[0] in ("lt", "le"):
                                        s.iv = _iv_add(s.iv, x, v) or {}
                                g[i] = s
                                del g[j]
                                changed = True
                                self.stats["merged"] += 1
                                break
                        # subsumption: facts of one are a subset of the other
                        small, big, sj = (fi, fj, j) if len(fi) <= len(fj) else (fj, fi, i)
                        if all(big.get(x) == v for x, v in small.items()):
                            del g[sj]
                            changed = True
                            break
                    if changed:
                        break
            oc = k[4]
            out.extend((s, oc) for s in g)
        return out

    def stmt(self, s, st, live):
        self.steps += 1
        if self.steps > 3_000_000:
            self.truncated = True
            raise Truncated()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [(st, None)]
        return m(s, st, live)

    def s_Pass(self, s, st, live):
        return [(st, None)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_ClassDef(self, s, st, live):
        st = st.clone()
        st.env[s.name] = mk("sym", "class:" + s.name)
        return [(st, None)]

    def s_FunctionDef(self, s, st, live):
        st = st.clone()
        st.env[s.name] = mk("lambda", s, Box(st.env))
        return [(st, None)]

    def s_Expr(self, s, st, live):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(x, ("raise", t) if isinstance(t, Raise) else None) for x, t in self.ev(s.value, st)]

    def s_Return(self, s, st, live):
        if s.value is None:
            return [(st, ("return", NONE))]
        return [(x, ("raise", t) if isinstance(t, Raise) else ("return", t)) for x, t in self.ev(s.value, st)]

    def s_Raise(self, s, st, live):
        nm = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = e.id if isinstance(e, ast.Name) else (e.attr if isinstance(e, ast.Attribute) else "Exception")
            if nm in st.env:
                t = st.env[nm]
                nm = t.a[0] if t.op == "exc" else "Exception"
        else:
            nm = "<reraise>"
        return [(st, ("raise", Raise(nm, s.lineno, st.fn)))]

    def s_Assert(self, s, st, live):
        out = []
        for x, v in self.cond(s.test, st):
            if isinstance(v, Raise):
                out.append((x, ("raise", v)))
            elif v:
                out.append((x, None))
            else:
                out.append((x, ("raise", Raise("AssertionError", s.lineno, st.fn))))
        return out

    def s_Break(self, s, st, live):
        return [(st, "break")]

    def s_Continue(self, s, st, live):
        return [(st, "continue")]

    def s_Assign(self, s, st, live):
        out = []
        for x, t in self.ev(s.value, st):
            if isinstance(t, Raise):
                out.append((x, ("raise", t)))
                continue
            cur = [(x, None)]
            for tg in s.targets:
                nxt = []
                for y, oc in cur:
                    if oc is not None:
                        nxt.append((y, oc))
                    else:
                        nxt.extend(self.assign(tg, t, y))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st, live):
        if s.value is None:
            return [(st, None)]
        out = []
        for x, t in self.ev(s.value, st):
            if isinstance(t, Raise):
                out.append((x, ("raise", t)))
            else:
                out.extend(self.assign(s.target, t, x))
        return out

    def s_AugAssign(self, s, st, live):
        load = ast.copy_location(_as_load(s.target), s.target)
        node = ast.copy_location(ast.BinOp(left=load, op=s.op, right=s.value), s)
        out = []
        if isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name):
            cur = st.env.get(s.target.id)
            if isinstance(cur, tm.T) and cur.op == "new" and cur.a[0] == "list" and (cur, "#items") in st.heap:
                # a list that is extended in place
                for x, t in self.ev(s.value, st):
                    if isinstance(t, Raise):
                        out.append((x, ("raise", t)))
                        continue
                    kn = self.known_items(t, x)
                    x = self.event(x, Ev("mut", cur, "extend", args=(t,)), s)
                    it = x.heap.pop((cur, "#items"), None)
                    if kn is not None and it is not None:
                        x.heap[(cur, "#items")] = mk("list", *it.a, *kn)
                    out.append((x, None))
                return out
        for x, t in self.ev(node, st):
            if isinstance(t, Raise):
                out.append((x, ("raise", t)))
            else:
                out.extend(self.assign(s.target, t, x, aug=True))
        return out

    def s_Delete(self, s, st, live):
        cur = [(st, None)]
        for tg in s.targets:
            nxt = []
            for x, oc in cur:
                if isinstance(tg, ast.Subscript):
                    for y, b in self.ev(tg.value, x):
                        if isinstance(b, Raise):
                            nxt.append((y, ("raise", b)))
                            continue
                        for z, kk in self.ev(tg.slice, y):
                            if isinstance(kk, Raise):
                                nxt.append((z, ("raise", kk)))
                                continue
                            z = self.event(z, Ev("delitem", b, "del", args=(kk,)), tg)
                            z.heap[(b, ("[]", kk))] = mk("sym", "<deleted>")
                            self._keys_change(z, b, kk, False)
                            nxt.append((z, None))
                elif isinstance(tg, ast.Name):
                    x = x.clone()
                    x.env.pop(tg.id, None)
                    nxt.append((x, None))
                elif isinstance(tg, ast.Attribute):
                    for y, b in self.ev(tg.value, x):
                        if isinstance(b, Raise):
                            nxt.append((y, ("raise", b)))
                            continue
                        y = self.event(y, Ev("write", b, tg.attr, mk("sym", "<deleted>")), tg)
                        nxt.append((y, None))
                else:
                    nxt.append((x, None))
            cur = nxt
        return cur

    def s_If(self, s, st, live):
        out = []
        for x, v in self.cond(s.test, st):
            if isinstance(v, Raise):
                out.append((x, ("raise", v)))
            else:
                out.extend(self.block(s.body if v else s.orelse, x, live))
        return out

    def s_With(self, s, st, live):
        cur = [st]
        for it in s.items:
            nxt = []
            for x in cur:
                for y, t in self.ev(it.context_expr, x):
                    if isinstance(t, Raise):
                        return [(y, ("raise", t))]
                    if it.optional_vars is not None:
                        for z, oc in self.assign(it.optional_vars, t, y):
                            nxt.append(z)
                    else:
                        nxt.append(y)
            cur = nxt
        out = []
        for x in cur:
            out.extend(self.block(s.body, x, live))
        return out

    def s_Try(self, s, st, live):
        out = []
        inner_live = live
        for h in s.handlers:
            inner_live = inner_live | self.loads(h)
        for b in s.orelse + s.finalbody:
            inner_live = inner_live | self.loads(b)
        st1 = st.clone()
        st1.intry = st.intry + (1 if s.handlers else 0)
        results = self.block(s.body, st1, inner_live)
        mid = []
        for x, oc in results:
            x = x.clone()
            x.intry = st.intry
            if oc is None:
                mid.extend(self.block(s.orelse, x, live | self._many(s.finalbody)) if s.orelse else [(x, None)])
            elif isinstance(oc, tuple) and oc[0] == "raise" and s.handlers:
                mid.extend(self.handle(s, x, oc[1], live | self._many(s.finalbody)))
            else:
                mid.append((x, oc))
        if s.finalbody:
            for x, oc in mid:
                for y, oc2 in self.block(s.finalbody, x, live):
                    out.append((y, oc2 if oc2 is not None else oc))
        else:
            out = mid
        return out

    s_TryStar = s_Try

    def _many(self, stmts):
        r = frozenset()
        for b in stmts:
            r |= self.loads(b)
        return r

    def handle(self, s, st, exc, live):
        for h in s.handlers:
            names = _handler_names(h)
            if exc.name == "EXC?":
                # exception of unknown type from an external call: may match any one handler, or none
                continue
            if "*" in names or exc.name in names or "Exception" in names or "BaseException" in names or (exc.name in self.m.classes and any(self.m.issub(exc.name, n) for n in names)) or _builtin_exc_sub(exc.name, names):
                y = st.clone()
                if h.name:
                    y.env[h.name] = mk("exc", exc.name)
                r = []
                for z, oc in self.block(h.body, y, live):
                    if isinstance(oc, tuple) and oc[0] == "raise" and oc[1].name == "<reraise>":
                        oc = ("raise", exc)
                    r.append((z, oc))
                return r
        if exc.name == "EXC?":
            r = []
            for h in s.handlers:
                y = st.clone()
                if h.name:
                    y.env[h.name] = mk("exc", _handler_names(h)[0])
                y = self.event(y, Ev("except", None, "|".join(_handler_names(h))), h)
                for z, oc in self.block(h.body, y, live):
                    if isinstance(oc, tuple) and oc[0] == "raise" and oc[1].name in ("<reraise>", "Exception") and not isinstance(oc[1].explicit, str):
                        oc = ("raise", Raise("EXC?", oc[1].line, oc[1].fn, explicit=False))
                    r.append((z, oc))
            if st.intry and not any({"*", "Exception", "BaseException"} & set(_handler_names(h)) for h in s.handlers):
                r.append((st, ("raise", exc)))  # left to an enclosing handler
            return r
        return [(st, ("raise", exc))]

    # loops ------------------------------------------------------------
    def s_While(self, s, st, live):
        body_live = live | self.loads(s)
        out = []
        cur = [st]
        lid = s.lineno
        for it in range(self.wk + 1):
            nxt = []
            for x in cur:
                for y, v in self.cond(s.test, x):
                    if isinstance(v, Raise):
                        out.append((y, ("raise", v)))
                    elif not v:
                        out.extend(self.block(s.orelse, y, live) if s.orelse else [(y, None)])
                    elif it < self.wk:
                        y = y.clone()
                        save = y.loop
                        y.loop = save + ((id(s), it),)
                        for z, oc in self.block(s.body, y, body_live):
                            if oc is None or oc == "continue" or oc == "break":
                                z = z.clone()
                                z.loop = save
                            if oc is None or oc == "continue":
                                nxt.append(z)
                            elif oc == "break":
                                out.append((z, None))
                            else:
                                out.append((z, oc))
                    else:
                        pass  # bound reached
            if len(nxt) > 1:
                nxt = [a for a, _ in self.merge([(a, None) for a in nxt], body_live)]
            cur = nxt
            self.tick(len(cur) + len(out))
            if not cur:
                break
        return out

    def s_For(self, s, st, live):
        body_live = live | self.loads(s)
        out = []
        for x, it in self.ev(s.iter, st):
            if isinstance(it, Raise):
                out.append((x, ("raise", it)))
                continue
            served = None
            if it.op == "new" and (it, "_head") in x.heap and self.qwalk(it, x) is not None:
                # a queue whose links are known: the next member is looked up when its turn comes
                served = ("served", id(s), x.loop)
                known, bound = None, 7
                x = x.clone()
                x.heap[(it, served)] = mk("list")
                first = self.qnodes(it, x)
                fixed = self.typeof(it, x) == "Store" or x.heap.get((it, "_isinternal")) is TRUE
            else:
                known = self.known_items(it, x)
                bound = len(known) if known is not None else self.k
            if known is not None and bound > 16:
                known = known[:16]
                bound = 16
            cur = [x]
            for i in range(bound + 1):
                nxt = []
                for y0 in cur:
                    if served is not None:
                        had = y0.heap[(it, served)].a
                        nodes = [n for n in (self.qnodes(it, y0) or []) if n not in had and not (fixed and n not in first)]
                        if nodes:
                            y1 = y0.clone()
                            y1.heap[(it, served)] = mk("list", *had, nodes[0])
                            branches, ends = [(y1, y1.heap.get((nodes[0], "component"), NONE))], []
                        else:
                            y1 = y0.clone()
                            y1.heap.pop((it, served), None)
                            branches, ends = [], [y1]
                    elif known is not None:
                        branches = [(y0, known[i])] if i < bound else []
                        ends = [] if i < bound else [y0]
                    else:
                        branches, ends = self.next_item(it, i, y0)
                        if i >= bound:
                            branches = []
                    for y in ends:
                        out.extend(self.block(s.orelse, y, live) if s.orelse else [(y, None)])
                    for y, item in branches:
                        save = y.loop
                        y = y.clone()
                        y.loop = save + ((id(s), i),)
                        for z0, oc0 in self.assign(s.target, item, y, quiet=True):
                            for z, oc in self.block(s.body, z0, body_live):
                                if oc is None or oc == "continue" or oc == "break":
                                    z = z.clone()
                                    z.loop = save
                                if oc is None or oc == "continue":
                                    nxt.append(z)
                                elif oc == "break":
                                    out.append((z, None))
                                else:
                                    out.append((z, oc))
                if len(nxt) > 1:
                    nxt = [a for a, _ in self.merge([(a, None) for a in nxt], body_live)]
                cur = nxt
                self.tick(len(cur) + len(out))
                if not cur:
                    break
        return out

    def s_Match(self, s, st, live):
        out = [(st, None)]
        for c in s.cases:
            out.extend(self.block(c.body, st.clone(), live))
        return out

    def container(self, t):
        """strip order preserving copies"""
        while t.op == "pure" and t.a[0] in ("list", "tuple", "keys", "iter", "copy"):
            t = t.a[1]
        return t

    def known_items(self, t, st):
        t = self.container(t)
        if t.op in ("list", "tuple"):
            return list(t.a)
        if t.op == "new":
            r = st.heap.get((t, "#items"))
            if r is not None:
                return list(r.a)
            r = self.qwalk(t, st)
            if r is not None:
                return r
        if t.op == "pure" and t.a[0] == "reversed":
            k = self.known_items(t.a[1], st)
            return list(reversed(k)) if k is not None else None
        if t.op == "pure" and t.a[0] == "enumerate":
            k = self.known_items(t.a[1], st)
            return [mk("tuple", const(i), x) for i, x in enumerate(k)] if k is not None else None
        if t.op == "pure" and t.a[0] == "zip" and len(t.a) > 1:
            ks = [self.endless(x) or self.known_items(x, st) for x in t.a[1:]]
            if all(k is not None for k in ks) and any(isinstance(k, list) for k in ks):
                n = min(len(k) for k in ks if isinstance(k, list))
                return [mk("tuple", *(k[i] if isinstance(k, list) else k(i) for k in ks)) for i in range(n)]
        if t.op == "pure" and t.a[0] in ("itertools.chain", "chain"):
            ks = [self.known_items(x, st) for x in t.a[1:]]
            if all(k is not None for k in ks):
                return [x for k in ks for x in k]
        if t.op == "pure" and t.a[0] == "range" and all(tm.is_num_const(x) and tm.num_value(x).denominator == 1 for x in t.a[1:]):
            r = range(*(int(tm.num_value(x)) for x in t.a[1:]))
            if len(r) <= 12:
                return [const(i) for i in r]
        return None

    def endless(self, t):
        """itertools.count() and itertools.repeat(x)"""
        if t.op == "pure" and t.a[0].split(".")[-1] == "count" and t.a[0] != "count":
            return (lambda i: tm.add(t.a[1] if len(t.a) > 1 else const(0), const(i))) if len(t.a) <= 2 else None
        if t.op == "pure" and t.a[0] == "itertools.repeat" and len(t.a) == 2:
            return lambda i: t.a[1]
        return None

    def qnodes(self, q, st):
        h, t = st.heap.get((q, "_head")), st.heap.get((q, "_tail"))
        out = []
        x = st.heap.get((h, "successor"))
        while x is not t:
            if x is None or len(out) > 12:
                return None
            out.append(x)
            x = st.heap.get((x, "successor"))
        return out

    def qwalk(self, q, st):
        """members of a queue whose links are materialised in the abstract heap"""
        h, t = st.heap.get((q, "_head")), st.heap.get((q, "_tail"))
        if h is None or t is None:
            return None
        out = []
        x = st.heap.get((h, "successor"))
        while x is not t:
            if x is None or len(out) > 12:
                return None
            out.append(st.heap.get((x, "component"), NONE))
            x = st.heap.get((x, "successor"))
        return out

    def next_item(self, it, i, st):
        """i-th element of an unknown iterable: ([(state, item)], [states in which it is exhausted])"""
        it = self.container(it)
        if it.op == "pure" and it.a[0] == "itertools.cycle" and len(it.a) == 2:
            kn = self.known_items(it.a[1], st)
            if kn:
                return [(st, kn[i % len(kn)])], []
        if it.op == "pure" and it.a[0] in ("items",):
            d = self.container(it.a[1])
            br, en = self.next_item(d, i, st)
            return [(s, mk("tuple", k, self.rd_item(d, k, s))) for s, k in br], en
        if it.op == "pure" and it.a[0] in ("values",):
            d = self.container(it.a[1])
            br, en = self.next_item(d, i, st)
            return [(s, self.rd_item(d, k, s)) for s, k in br], en
        if it.op == "pure" and it.a[0] == "enumerate":
            br, en = self.next_item(it.a[1], i, st)
            return [(s, mk("tuple", const(i), k)) for s, k in br], en
        if it.op == "pure" and it.a[0] == "reversed":
            base = self.container(it.a[1])
            if base.op == "pure" and base.a[0] == "qlist":
                return self._split(st, cmp_lt(const(i), base.a[2]), mk("elem", base.a[1], -1 - i, base.a[2]))
            if self.isqueue(base, st):
                n = self.rd(base, "_length", st)
                return self._split(st, cmp_lt(const(i), n), mk("elem", base, -1 - i, n))
            return self._split(st, self.more(base, i), mk("elem", base, -1 - i))
        if it.op == "pure" and it.a[0] == "range" and len(it.a) == 2:
            n = it.a[1]
            return self._split(st, cmp_lt(const(i), n), mk("ridx", n, i))
        if it.op == "pure" and it.a[0] == "zip":
            cur = [(st, ())]
            ends = []
            for src in it.a[1:]:
                nx = []
                for s, items in cur:
                    kn = self.known_items(src, s)
                    if kn is not None:
                        if i < len(kn):
                            nx.append((s, items + (kn[i],)))
                        else:
                            ends.append(s)
                        continue
                    b, e = self.next_item(src, i, s)
                    ends.extend(e)
                    nx.extend((s2, items + (x,)) for s2, x in b)
                cur = nx
            return [(s, mk("tuple", *items)) for s, items in cur], ends
        if it.op == "comp":
            node, box, src = it.a
            g = node.generators[0]
            br, en = self.next_item(src, i, st)
            res = []
            for s, item in br:
                save = s.env
                s = s.clone()
                s.env = dict(box.v)
                for s1, oc in self.assign(g.target, item, s, quiet=True):
                    states = [(s1, True)]
                    for c in g.ifs:
                        nx = []
                        for a, ok in states:
                            if not ok:
                                nx.append((a, ok))
                            else:
                                nx.extend((b, v) for b, v in self.cond(c, a) if not isinstance(v, Raise))
                        states = nx
                    for a, ok in states:
                        if ok:
                            for b, v in self.ev(node.elt, a):
                                if not isinstance(v, Raise):
                                    b = b.clone()
                                    b.env = save
                                    res.append((b, v))
                        else:
                            a = a.clone()
                            a.env = save
                            en.append(a)  # skipped element: treated as exhausted within the bound
            return res, en
        if it.op == "pure" and it.a[0] == "qlist":
            return self._split(st, cmp_lt(const(i), it.a[2]), mk("elem", it.a[1], i, it.a[2]))
        if self.isqueue(it, st):
            n = self.rd(it, "_length", st)
            return self._split(st, cmp_lt(const(i), n), mk("elem", it, i, n))
        return self._split(st, self.more(it, i), mk("elem", it, i))

    def more(self, c, i):
        return truth(c) if i == 0 else mk("cmp", "more", c, i)

    def _split(self, st, lit, item):
        br, en = [], []
        for s, v in self.assume2(lit, st):
            (br if v else en).append((s, item) if v else s)
        return br, en

    def assume2(self, lit, st):
        """fork on a literal"""
        d = decide(st, lit)
        if d is not None:
            return [(st, d)]
        val = True
        atom = lit
        if lit.op == "not":
            atom, val = lit.a[0], False
        if atom.op != "cmp":
            tl = truth(atom)
            if tl is not atom:
                r = self.assume2(tl if val else neg(tl), st)
                return r
        out = []
        s1 = and_facts(st, atom, True)
        if s1 is not None:
            out.append((s1, val))
        s2 = and_facts(st, atom, False)
        if s2 is not None:
            out.append((s2, not val))
        if len(out) == 2:
            self.stats["forks"] += 1
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, tg, t, st, aug=False, quiet=False):
        if isinstance(tg, ast.Name):
            if tg.id in self.m.global_vars and self.is_global(st.fn, tg.id):
                return self.store(MODULE, tg.id, t, st, tg)
            st = st.clone()
            st.env[tg.id] = t
            return [(st, None)]
        if isinstance(tg, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Starred) for e in tg.elts):
            kn = self.known_items(t, st)
            star = next(i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred))
            after = len(tg.elts) - star - 1
            cur = [(st, None)]
            if kn is not None and len(kn) < star + after:
                return [(st, ("raise", Raise("ValueError", tg.lineno, st.fn, explicit=False)))]
            for i, e in enumerate(tg.elts):
                nxt = []
                for x, oc in cur:
                    if oc is not None:
                        nxt.append((x, oc))
                        continue
                    if i == star:
                        if kn is not None:
                            x, v = self.fresh("list", x, e)
                            x.heap[(v, "#items")] = mk("list", *kn[star: len(kn) - after])
                        else:
                            v = mk("pure", "rest", t)
                        e = e.value if isinstance(e, ast.Starred) else e
                    elif kn is not None:
                        v = kn[i] if i < star else kn[i - len(tg.elts)]
                    else:
                        v = self.rd_item(t, const(i if i < star else i - len(tg.elts)), x)
                    nxt.extend(self.assign(e, v, x, quiet=quiet))
                cur = nxt
            return cur
        if isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            kn = list(t.a) if t.op in ("tuple", "list") and len(t.a) == n else None
            if kn is None and t.op == "pure" and t.a[0] in ("zip", "reversed"):
                kn = self.known_items(t, st)
                kn = kn if kn is not None and len(kn) == n else None
            if kn is None and t.op == "new":
                r = st.heap.get((t, "#items"))
                kn = list(r.a) if r is not None and len(r.a) == n else None
            cur = [(st, None)]
            for i, e in enumerate(tg.elts):
                v = kn[i] if kn else self.rd_item(t, const(i), st)
                nxt = []
                for x, oc in cur:
                    nxt.extend(self.assign(e, v, x, quiet=quiet) if oc is None else [(x, oc)])
                cur = nxt
            return cur
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, mk("pure", "rest", t), st)
        if isinstance(tg, ast.Attribute):
            out = []
            for x, b in self.ev(tg.value, st):
                if isinstance(b, Raise):
                    out.append((x, ("raise", b)))
                    continue
                out.extend(self.store(b, tg.attr, t, x, tg))
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for x, b in self.ev(tg.value, st):
                if isinstance(b, Raise):
                    out.append((x, ("raise", b)))
                    continue
                for y, kk in self.ev(tg.slice, x):
                    if isinstance(kk, Raise):
                        out.append((y, ("raise", kk)))
                        continue
                    old = self.rd_item(b, kk, y)
                    y = self.event(y, Ev("setitem", b, "set", t, args=(kk,), old=old), tg)
                    i = self._index(kk)
                    items = y.heap.get((b, "#items"))
                    if items is not None and i is not None and b.op == "new" and b.a[0] == "list" and -len(items.a) <= i < len(items.a):
                        it = list(items.a)
                        it[i] = t
                        y.heap[(b, "#items")] = mk("list", *it)
                        out.append((y, None))
                        continue
                    y.heap[(b, ("[]", kk))] = t
                    if not tm.is_const(kk):
                        y.heap.pop((b, "#literal"), None)
                    self._keys_change(y, b, kk, True)
                    if b.op in ("attr", "new"):
                        self._retire_truth(y, b)
                    out.append((y, None))
            return out
        return [(st, None)]

    @staticmethod
    def _index(k):
        """a known index of a list"""
        if k is TRUE or k is FALSE:
            return 1 if k is TRUE else 0
        if tm.is_num_const(k) and tm.num_value(k).denominator == 1:
            return int(tm.num_value(k))
        return None

    @staticmethod
    def _definite(t):
        """two different definite terms denote two different values"""
        return t.op == "new" or tm.is_num_const(t) or t.op == "const"

    def _keys_change(self, st, b, k, present):
        """the known keys of a dict after d[k] = ... or del d[k]; unknown when that cannot be decided"""
        items = st.heap.get((b, "#items"))
        if items is None:
            return
        # the key of an iteration that starts is different from those of the iterations under way
        own = b.op == "new" and isinstance(b.a[1], tuple) and b.a[1][0] == "iterators of"
        if b.op == "new" and b.a[0] == "dict" and (own or self._definite(k) and all(self._definite(i) for i in items.a)):
            if present:
                if k not in items.a:
                    st.heap[(b, "#items")] = mk("list", *items.a, k)
            else:
                st.heap[(b, "#items")] = mk("list", *(i for i in items.a if i is not k))
            return
        st.heap.pop((b, "#items"), None)

    def is_global(self, qual, name):
        k = (qual, name)
        if k not in self.m.declares:
            f = self.m.get(qual)
            self.m.declares[k] = f is not None and any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(f.node))
        return self.m.declares[k]

    def store(self, b, attr, t, st, node):
        cls = self.typeof(b, st)
        if cls:
            sf = self.m.setter(cls, attr)
            if sf is not None:
                res = self.dispatch(sf, b, {sf.posargs[0]: b, sf.posargs[1]: t}, st, node, setter=True)
                return [(x, ("raise", v) if isinstance(v, Raise) else None) for x, v in res]
        if attr in self.mute:
            return [(st, None)]
        old = self.rd(b, attr, st)
        st = self.event(st, Ev("write", b, attr, t, old=old), node)
        st.heap[(b, attr)] = t
        return [(st, None)]

    def event(self, st, e, node):
        st = st.clone()
        e.line = getattr(node, "lineno", 0)
        e.fn = st.fn
        e.facts = st.facts
        e.loop = st.loop
        st.ev = (st.ev, e)
        return st

    # ------------------------------------------------------------ reading
    def typeof(self, t, st=None):
        op = t.op
        if t is ENV:
            return "Environment"
        if op == "sym":
            n = t.a[0]
            if n == "self":
                return st.cls if st is not None and st.stack and st.stack[0].split(".")[0] else self._selfcls(st)
            if n.startswith("arg:"):
                return self.param_types.get(n[4:])
            if n.startswith("class:"):
                return None
            return None
        if op == "new":
            return t.a[0] if t.a[0] in self.m.classes else None
        if op == "attr":
            bt = self.typeof(t.a[0], st)
            return self.m.attr_type(bt, t.a[1])
        if op == "elem":
            c = t.a[0]
            if c.op == "attr":
                h = ELEM_HINTS.get(c.a[1])
                if h:
                    return h
            if self.isqueue(c, st):
                return "Component"
            if c.op == "sym" and c.a[0] == "arg:stores":
                return "Store"
            return None
        if op == "qm":
            return "Qmember"
        if op == "idx":
            b = t.a[0]
            if b.op == "attr" and b.a[1] == "_qmembers":
                return "Qmember"
            if b.op == "elem" and b.a[0].op == "attr" and b.a[0].a[1] == "_waits" and t.a[1] is const(0):
                return "State"
            return None
        if op == "res":
            return t.a[1]
        return None

    def _selfcls(self, st):
        return st.cls if st else None

    def isqueue(self, t, st):
        ty = self.typeof(t, st)
        return ty is not None and ty in self.m.classes and self.m.issub(ty, "Queue")

    def ismon(self, t, st):
        ty = self.typeof(t, st)
        return ty is not None and ty in self.m.classes and self.m.issub(ty, "Monitor")

    def rd(self, b, attr, st):
        """read attribute: value number"""
        if attr == "env" and self.merge_env:
            return ENV
        v = st.heap.get((b, attr))
        if v is not None:
            return v
        # queue walks
        if attr == "successor":
            if b.op == "attr" and b.a[1] == "_head":
                q = b.a[0]
                return mk("qm", q, 0, self.rd(q, "_length", st))
            if b.op == "qm":
                if b.a[1] >= 0:
                    return mk("qm", b.a[0], b.a[1] + 1, b.a[2])
                if b.a[1] < -1:
                    return mk("qm", b.a[0], b.a[1] + 1, b.a[2])
                return self.rd(b.a[0], "_tail", st)
        if attr == "predecessor":
            if b.op == "attr" and b.a[1] == "_tail":
                q = b.a[0]
                return mk("qm", q, -1, self.rd(q, "_length", st))
            if b.op == "qm":
                if b.a[1] < 0:
                    return mk("qm", b.a[0], b.a[1] - 1, b.a[2])
                if b.a[1] > 0:
                    return mk("qm", b.a[0], b.a[1] - 1, b.a[2])
                return self.rd(b.a[0], "_head", st)
        if attr == "component" and b.op == "qm":
            return mk("elem", b.a[0], b.a[1], b.a[2])
        ep = st.epoch.get(attr, 0) or 0
        ea = st.epoch.get("*", 0)
        if ea and not (attr in STABLE_ATTRS):
            ep = (ep, ea)
        return mk("attr", b, attr, ep) if ep else mk("attr", b, attr)

    def is_literal(self, c, st):
        """a dict display with constant keys that has not been changed"""
        return c.op == "new" and st.heap.get((c, "#literal")) is TRUE and not any(e.base is c and e.kind == "mut" for e in st.events())

    def rd_item(self, b, k, st):
        b0 = self.container(b)
        v = st.heap.get((b0, ("[]", k)))
        if v is not None:
            return v
        i = self._index(k)
        if b0.op in ("tuple", "list") and i is not None:
            if -len(b0.a) <= i < len(b0.a):
                return b0.a[i]
        if b0.op == "new":
            items = st.heap.get((b0, "#items"))
            if items is not None and i is not None:
                if -len(items.a) <= i < len(items.a):
                    return items.a[i]
        if b0.op == "pure" and b0.a[0] == "qlist" and tm.is_num_const(k) and tm.num_value(k).denominator == 1:
            return mk("elem", b0.a[1], int(tm.num_value(k)), b0.a[2])
        if k.op == "ridx" and k.a[0] is mk("pure", "len", b0):
            return mk("elem", b0, k.a[1])
        if self.isqueue(b0, st) and tm.is_num_const(k) and tm.num_value(k).denominator == 1:
            return mk("elem", b0, int(tm.num_value(k)), self.rd(b0, "_length", st))
        if self.isqueue(b0, st) and k.op == "ridx":
            return mk("elem", b0, k.a[1], self.rd(b0, "_length", st))
        if b0.op == "pure" and b0.a[0] in ("items",) or (b0.op == "elem" and False):
            pass
        return mk("idx", b0, k)

    # ------------------------------------------------------------ conditions
    def cond(self, node, st):
        """evaluate as a condition: list of (state, bool | Raise)"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [(st, isand)]
            out = []
            for i, v in enumerate(node.values):
                nxt = []
                for x, _ in cur:
                    for y, b in self.cond(v, x):
                        if isinstance(b, Raise):
                            out.append((y, b))
                        elif b == isand:
                            nxt.append((y, b))
                        else:
                            out.append((y, b))
                cur = nxt
            return out + cur
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(x, b if isinstance(b, Raise) else (not b)) for x, b in self.cond(node.operand, st)]
        out = []
        for x, t in self.ev(node, st):
            if isinstance(t, Raise):
                out.append((x, t))
                continue
            out.extend(self.branch(t, x))
        return out

    def branch(self, t, x):
        if self.isqueue(t, x):
            lit = neg(cmp_lt(self.rd(t, "_length", x), const(1)))
        elif t.op == "new" and (t, "#items") in x.heap:
            lit = TRUE if x.heap[(t, "#items")].a else FALSE
        elif t.op == "pure" and t.a[0] == "list" and self.isqueue(t.a[1], x):
            lit = neg(cmp_lt(self.rd(t.a[1], "_length", x), const(1)))
        elif t.op in ("new", "elem", "attr") and self.typeof(t, x) in ("Component", "Resource", "State", "Environment"):
            lit = neg(cmp_eq(t, NONE)) if t.op != "new" else TRUE
        else:
            lit = truth(t)
        lit2 = self.assume_table(lit, x)
        return self.assume2(lit2, x)

    def assume_table(self, lit, st):
        if not self.assumef:
            return lit
        a, pos = (lit.a[0], False) if lit.op == "not" else (lit, True)
        if a.op == "cmp" and a.a[0] == "truthy":
            t = a.a[1]
            if t.op == "attr" and t.a[1] in self.assumef:
                v = self.assumef[t.a[1]]
                if v is not None:
                    return TRUE if v == pos else FALSE
            if t.op == "glob" and t.a[0] in self.assumef:
                v = self.assumef[t.a[0]]
                if v is not None:
                    return TRUE if v == pos else FALSE
        return lit

    # ------------------------------------------------------------ expressions
    def ev(self, node, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return [(st, mk("node", ast.dump(node)[:80]))]
        return m(node, st)

    def evs(self, nodes, st):
        """evaluate a list of nodes: list of (state, [terms] | Raise)"""
        cur = [(st, [])]
        out = []
        for n in nodes:
            nxt = []
            for x, acc in cur:
                for y, t in self.ev(n, x):
                    if isinstance(t, Raise):
                        out.append((y, t))
                    else:
                        nxt.append((y, acc + [t]))
            cur = nxt
        return out + cur

    def e_Constant(self, n, st):
        return [(st, const(n.value))]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st, st.env[n.id])]
        if n.id in self.m.consts:
            return [(st, self.m.consts[n.id])]
        if n.id in self.m.global_vars:
            return [(st, self.rd(MODULE, n.id, st))]
        if n.id in self.m.functions:
            return [(st, mk("func", self.m.functions[n.id]))]
        if n.id == "inf":
            return [(st, INF)]
        return [(st, mk("glob", n.id))]

    def e_Attribute(self, n, st):
        out = []
        for x, b in self.ev(n.value, st):
            if isinstance(b, Raise):
                out.append((x, b))
                continue
            if b.op == "glob" and b.a[0] in ("math",) and n.attr == "inf":
                out.append((x, INF))
                continue
            if b.op == "glob" and b.a[0] not in ("g",):
                out.append((x, mk("glob", b.a[0] + "." + n.attr)))
                continue
            cls = self.typeof(b, x)
            if cls:
                gf = self.m.getter(cls, n.attr)
                if gf is not None and not (self.m.issub(cls, "Monitor") and n.attr in ("value", "_value") and cls != "_StateMonitor"):
                    out.extend(self.dispatch(gf, b, {gf.posargs[0]: b}, x, n))
                    continue
                if self.m.issub(cls, "Monitor") and n.attr in ("value", "_value"):
                    out.append((x, self.rd(b, "_tally", x)))
                    continue
                if self.m.issub(cls, "Environment") and n.attr in ("_yieldless", "_trace") and self.assumef.get(n.attr) is not None:
                    pass
                mf = self.m.method(cls, n.attr)
                if mf is not None and (b, n.attr) not in x.heap and self.m.attr_type(cls, n.attr) is None:
                    out.append((x, mk("bound", b, mf)))
                    continue
            out.append((x, self.rd(b, n.attr, x)))
        return out

    def e_Subscript(self, n, st):
        out = []
        for x, b in self.ev(n.value, st):
            if isinstance(b, Raise):
                out.append((x, b))
                continue
            if isinstance(n.slice, ast.Slice):
                parts = [p for p in (n.slice.lower, n.slice.upper, n.slice.step)]
                for y, ts in self.evs([p if p is not None else ast.Constant(value=None) for p in parts], x):
                    if isinstance(ts, Raise):
                        out.append((y, ts))
                    elif self.strings and is_text(b) and self.text_slice(b, ts) is not None:
                        out.append((y, self.text_slice(b, ts)))
                    else:
                        kn = self.known_items(b, y)
                        if kn is not None and all(t is NONE or (tm.is_num_const(t) and tm.num_value(t).denominator == 1) for t in ts):
                            y, t = self.fresh("list", y, n)
                            y.heap[(t, "#items")] = mk("list", *kn[slice(*(None if t2 is NONE else int(tm.num_value(t2)) for t2 in ts))])
                            out.append((y, t))
                        else:
                            out.append((y, mk("pure", "slice", b, *ts)))
                continue
            for y, k in self.ev(n.slice, x):
                if isinstance(k, Raise):
                    out.append((y, k))
                    continue
                if self.strings and is_text(b) and tm.is_num_const(k):
                    i = int(tm.num_value(k))
                    if b.op == "const" and -len(b.a[1]) <= i < len(b.a[1]):
                        out.append((y, const(b.a[1][i])))
                        continue
                    e = b.a[-1] if i < 0 else b.a[0]
                    if b.op == "cat" and e.op == "const" and -len(e.a[1]) <= i < len(e.a[1]):
                        out.append((y, const(e.a[1][i])))
                        continue
                if b.op == "new" and ((b, "_head") in y.heap and self.isqueue(b, y) or b.a[0] == "PeriodMonitor"):
                    out.extend(self.method_call(b, "__getitem__", [k], {}, y, n))
                    continue
                sl = y.heap.get((k, "#slice"))
                kn = self.known_items(b, y) if sl is not None else None
                if kn is not None:
                    y, t = self.fresh("list", y, n)
                    y.heap[(t, "#items")] = mk("list", *kn[slice(*(None if t2 is NONE else int(tm.num_value(t2)) for t2 in sl.a))])
                    out.append((y, t))
                    continue
                if tm.is_const(k) and self.is_literal(b, y) and y.heap.get((b, ("[]", k))) is None:
                    out.append((y, Raise("KeyError", n.lineno, "", False)))
                    continue
                # indexing with int(bool) e.g. x[ex0]
                out.append((y, self.rd_item(b, k, y)))
        return out

    def e_Tuple(self, n, st):
        out = []
        for x, ts in self.evs(n.elts, st):
            if not isinstance(ts, Raise):
                kn = self._starred(n.elts, ts, x)
                ts = mk("pure", "concat", *ts) if kn is None else mk("tuple", *kn)
            out.append((x, ts))
        return out

    def e_List(self, n, st):
        out = []
        for x, ts in self.evs(n.elts, st):
            if isinstance(ts, Raise):
                out.append((x, ts))
                continue
            ts = self._starred(n.elts, ts, x)
            x, t = self.fresh("list", x, n)
            if ts is not None:
                x.heap[(t, "#items")] = mk("list", *ts)
            out.append((x, t))
        return out

    def _starred(self, elts, ts, st):
        """items of a list or tuple display, None if a starred part is not known"""
        out = []
        for e, t in zip(elts, ts):
            if isinstance(e, ast.Starred):
                kn = self.known_items(t, st)
                if kn is None:
                    return None
                out.extend(kn)
            else:
                out.append(t)
        return out

    def e_Set(self, n, st):
        return [(x, ts if isinstance(ts, Raise) else mk("set", *ts)) for x, ts in self.evs(n.elts, st)]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Dict(self, n, st):
        x, t = self.fresh("dict", st, n)
        if not n.keys:
            x.heap[(t, "#items")] = mk("list")
            return [(x, t)]
        out = []
        keys = [k for k in n.keys if k is not None]
        for y, ts in self.evs(keys + list(n.values), x):
            if isinstance(ts, Raise):
                out.append((y, ts))
                continue
            if len(keys) == len(n.values):
                y = y.clone()
                for k, v in zip(ts[: len(keys)], ts[len(keys):]):
                    y.heap[(t, ("[]", k))] = v
                if all(tm.is_const(k) for k in ts[: len(keys)]):
                    y.heap[(t, "#literal")] = TRUE  # until it is changed
            else:
                ks, d = iter(ts[: len(keys)]), {}
                for k, v in zip(n.keys, ts[len(keys):]):
                    if k is not None:
                        d[next(ks)] = v
                        continue
                    kn = self.known_dict(v, y)
                    if kn is None:
                        d = None
                        break
                    d.update((const(a), b) for a, b in kn.items())
                if d is not None:
                    y = y.clone()
                    for k, v in d.items():
                        y.heap[(t, ("[]", k))] = v
                    if all(tm.is_const(k) for k in d):
                        y.heap[(t, "#literal")] = TRUE
            out.append((y, t))
        return out

    def fresh(self, what, st, node):
        st = st.clone()
        st.uniq += 1
        return st, mk("new", what, st.uniq)

    def e_JoinedStr(self, n, st):
        if self.strings:
            if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion not in (-1, 115)) for v in n.values):
                return [(st, STR)]
            out = []
            for x, ts in self.evs([v.value if isinstance(v, ast.FormattedValue) else v for v in n.values], st):
                out.append((x, ts if isinstance(ts, Raise) else cat(*(fmt(t) if isinstance(v, ast.FormattedValue) else t for v, t in zip(n.values, ts)))))
            return out
        return [(st, STR)]

    def e_FormattedValue(self, n, st):
        return [(st, STR)]

    def e_Lambda(self, n, st):
        return [(st, mk("lambda", n, Box(st.env)))]

    def e_IfExp(self, n, st):
        out = []
        for x, v in self.cond(n.test, st):
            if isinstance(v, Raise):
                out.append((x, v))
            else:
                out.extend(self.ev(n.body if v else n.orelse, x))
        return out

    def e_NamedExpr(self, n, st):
        out = []
        for x, t in self.ev(n.value, st):
            if not isinstance(t, Raise):
                x = x.clone()
                x.env[n.target.id] = t
            out.append((x, t))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = [(st, None)]
        out = []
        last = len(n.values) - 1
        for i, v in enumerate(n.values):
            nxt = []
            for x, _ in cur:
                for y, t in self.ev(v, x):
                    if isinstance(t, Raise):
                        out.append((y, t))
                        continue
                    if i == last:
                        out.append((y, t))
                        continue
                    for z, b in self.branch(t, y):
                        if b == isand:
                            nxt.append((z, None))
                        else:
                            # value is the operand; a decided literal becomes its truth value
                            out.append((z, (FALSE if isand else TRUE) if t.op in ("cmp", "not") else t))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st):
        out = []
        if isinstance(n.op, ast.Not):
            return [(x, b if isinstance(b, Raise) else (FALSE if b else TRUE)) for x, b in self.cond(n.operand, st)]
        for x, t in self.ev(n.operand, st):
            if isinstance(t, Raise):
                out.append((x, t))
            elif isinstance(n.op, ast.USub):
                out.append((x, tm.neg(t)))
            elif isinstance(n.op, ast.UAdd):
                out.append((x, t))
            else:
                out.append((x, mk("pure", "~", t)))
        return out

    def e_BinOp(self, n, st):
        out = []
        for x, ts in self.evs([n.left, n.right], st):
            if isinstance(ts, Raise):
                out.append((x, ts))
                continue
            r = self.concat(n, ts[0], ts[1], x) or self.setop(n, ts[0], ts[1], x)
            out.append(r if r is not None else (x, self.binop(n.op, ts[0], ts[1])))
        return out

    def concat(self, n, a, b, st):
        islist = lambda t: t.op in ("list",) or t.op == "new" and t.a[0] == "list"
        if isinstance(n.op, ast.Mult):
            if self._index(a) is not None:
                a, b = b, a
            if (islist(a) or a.op == "tuple") and tm.is_num_const(b) and self._index(b) is not None:
                ka = self.known_items(a, st)
                if ka is not None and len(ka) * self._index(b) <= 12:
                    st, t = self.fresh("list", st, n)
                    st.heap[(t, "#items")] = mk("list", *(ka * self._index(b)))
                    return st, t
            return None
        if isinstance(n.op, ast.Add) and a.op == "tuple" and b.op == "tuple":
            return st, mk("tuple", *a.a, *b.a)
        if not isinstance(n.op, ast.Add) or not (islist(a) and islist(b)):
            return None
        ka, kb = self.known_items(a, st), self.known_items(b, st)
        if ka is None or kb is None:
            return None
        st, t = self.fresh("list", st, n)
        st.heap[(t, "#items")] = mk("list", *ka, *kb)
        return st, t

    def setop(self, n, a, b, st):
        """a & b, a | b, a - b, a ^ b for containers whose members are known and can be told apart"""
        if not isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            return None
        if tm.is_num_const(a) or tm.is_num_const(b):
            return None
        if self.isqueue(a, st) or self.isqueue(b, st):
            return None
        ka, kb = self.known_items(a, st), self.known_items(b, st)
        if ka is None or kb is None or not all(self._definite(t) for t in ka + kb):
            return None
        if isinstance(n.op, ast.BitAnd):
            r = [t for t in ka if t in kb]
        elif isinstance(n.op, ast.BitOr):
            r = ka + [t for t in kb if t not in ka]
        elif isinstance(n.op, ast.Sub):
            r = [t for t in ka if t not in kb]
        else:
            r = [t for t in ka if t not in kb] + [t for t in kb if t not in ka]
        st, t = self.fresh("list", st, n)
        st.heap[(t, "#items")] = mk("list", *r)
        return st, t

    def binop(self, op, a, b):
        isstr = lambda t: t is STR or (t.op == "const" and t.a[0] == "str")
        if isinstance(op, ast.Add):
            if self.strings and (is_text(a) or is_text(b)) and a is not STR and b is not STR:
                return cat(a, b)
            if isstr(a) or isstr(b):
                return STR
            if a.op in ("list", "tuple") or b.op in ("list", "tuple"):
                return mk("pure", "+", a, b)
            if a.op == "pure" and a.a[0] in ("list", "slice", "sorted") or b.op == "pure" and b.a[0] in ("list", "sorted"):
                return mk("pure", "+", a, b)
            return tm.add(a, b)
        if isinstance(op, ast.Sub):
            return tm.sub(a, b)
        if isinstance(op, ast.Mult):
            if isstr(a) or isstr(b):
                return STR
            if a.op in ("list", "tuple", "new") or b.op in ("list", "tuple", "new"):
                return mk("pure", "*", a, b)
            return tm.mul(a, b)
        if isinstance(op, ast.Div):
            return tm.div(a, b)
        if isinstance(op, ast.Mod) and isstr(a):
            if self.strings and a is not STR:
                ps = a.a[1].split("%s")
                vs = b.a if b.op == "tuple" else (b,)
                if not any("%" in q for q in ps) and len(ps) == len(vs) + 1:
                    return cat(*(x for i, q in enumerate(ps) for x in ([fmt(vs[i - 1])] if i else []) + [const(q)]))
            return STR
        if isinstance(op, (ast.Mod, ast.FloorDiv)) and tm.is_num_const(a) and tm.is_num_const(b) and tm.num_value(b) != 0:
            return tm.lin_const(Fraction(tm.num_value(a) % tm.num_value(b) if isinstance(op, ast.Mod) else tm.num_value(a) // tm.num_value(b)))
        if isinstance(op, ast.Pow) and tm.is_num_const(b):
            n = tm.num_value(b)
            if n.denominator == 1 and 1 <= n <= 4:
                r = a
                for _ in range(int(n) - 1):
                    r = tm.mul(r, a)
                return r
            if n == Fraction(1, 2):
                return mk("pure", "math.sqrt", a)
        return mk("pure", type(op).__name__, a, b)

    def e_Compare(self, n, st):
        # chains become conjunctions
        if len(n.ops) > 1:
            vals = []
            left = n.left
            for op, r in zip(n.ops, n.comparators):
                vals.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), n))
                left = r
            return self.e_BoolOp(ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), n), st)
        op = n.ops[0]
        out = []
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)):
            # x in (a, b) -> x == a or x == b
            for x, ts in self.evs([n.left] + n.comparators[0].elts, st):
                if isinstance(ts, Raise):
                    out.append((x, ts))
                    continue
                out.extend(self.in_items(ts[0], ts[1:], x, isinstance(op, ast.In)))
            return out
        for x, ts in self.evs([n.left, n.comparators[0]], st):
            if isinstance(ts, Raise):
                out.append((x, ts))
                continue
            a, b = ts
            out.extend(self.compare(op, a, b, x, n))
        return out

    def in_items(self, a, items, st, positive):
        cur = [st]
        out = []
        for it in items:
            nxt = []
            for y in cur:
                for z, v in self.assume2(cmp_eq(a, it), y):
                    if v:
                        out.append((z, TRUE if positive else FALSE))
                    else:
                        nxt.append(z)
            cur = nxt
        out.extend((y, FALSE if positive else TRUE) for y in cur)
        return out

    def compare(self, op, a, b, st, n):
        if a.op == "tuple" and b.op == "tuple" and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and a.a and b.a:
            out = []
            for x, v in self.assume2(cmp_eq(a.a[0], b.a[0]), st):
                if not v:
                    out.extend(self.compare(op, a.a[0], b.a[0], x, n))
                elif len(a.a) == 1 or len(b.a) == 1:
                    r = {ast.Lt: len(a.a) < len(b.a), ast.LtE: len(a.a) <= len(b.a), ast.Gt: len(a.a) > len(b.a), ast.GtE: len(a.a) >= len(b.a)}[type(op)]
                    out.append((x, TRUE if r else FALSE))
                else:
                    out.extend(self.compare(op, mk("tuple", *a.a[1:]), mk("tuple", *b.a[1:]), x, n))
            return out
        if a.op == "const" and b.op == "const" and a.a[0] == b.a[0] == "str" and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            r = {ast.Lt: a.a[1] < b.a[1], ast.LtE: a.a[1] <= b.a[1], ast.Gt: a.a[1] > b.a[1], ast.GtE: a.a[1] >= b.a[1]}[type(op)]
            return [(st, TRUE if r else FALSE)]
        if isinstance(op, ast.Lt):
            return [(st, self.alt(a, b, True, st))]
        if isinstance(op, ast.LtE):
            return [(st, self.alt(a, b, False, st))]
        if isinstance(op, ast.Gt):
            return [(st, self.alt(b, a, True, st))]
        if isinstance(op, ast.GtE):
            return [(st, self.alt(b, a, False, st))]
        if isinstance(op, (ast.Eq, ast.NotEq)) and a is not b and all(t.op == "new" and t.a[0] == "list" or t.op == "list" for t in (a, b)):
            ka, kb = self.known_items(a, st), self.known_items(b, st)
            if ka is not None and kb is not None:
                yes, no = (TRUE, FALSE) if isinstance(op, ast.Eq) else (FALSE, TRUE)
                if len(ka) != len(kb):
                    return [(st, no)]
                cur, out = [st], []
                for u, v in zip(ka, kb):
                    nxt = []
                    for x0 in cur:
                        for x1, r in self.compare(ast.Eq(), u, v, x0, n):
                            for x, w in self.branch(r, x1):
                                (nxt if w else out).append(x)
                    cur = nxt
                return [(x, yes) for x in cur] + [(x, no) for x in out]
        if isinstance(op, (ast.Eq, ast.Is)):
            return [(st, self.assume_eq(cmp_eq(a, b)))]
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return [(st, neg(self.assume_eq(cmp_eq(a, b))))]
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            if self.strings and is_text(a) and is_text(b):
                v = text_in(a, b)
                if v is not None:
                    return [(st, TRUE if v is pos else FALSE)]
            if a.op == "const" and b.op == "const" and isinstance(a.a[1], str) and isinstance(b.a[1], str) and a.a[0] == b.a[0] == "str":
                return [(st, TRUE if (a.a[1] in b.a[1]) is pos else FALSE)]
            kn = self.known_items(b, st)
            if kn is not None:
                return self.in_items(a, kn, st, pos)
            c = self.container(b)
            if self.isqueue(c, st):
                v = st.heap.get((c, ("in", a)))
                if v is None:
                    ep = st.epoch.get(("Q", c), 0)
                    v = mk("cmp", "in", a, c, ep) if ep else mk("cmp", "in", a, c)
            elif a.op == "elem" and a.a[0] is c:
                v = TRUE
            else:
                v = st.heap.get((c, ("in", a)))
                if v is None:
                    ov = st.heap.get((c, ("[]", a)))
                    if ov is not None:
                        v = FALSE if ov is mk("sym", "<deleted>") else TRUE
                    elif tm.is_const(a) and self.is_literal(c, st):
                        v = FALSE
                    else:
                        v = mk("cmp", "in", a, c)
            return [(st, v if pos else neg(v))]
        return [(st, mk("pure", type(op).__name__, a, b))]

    def alt(self, a, b, strict, st):
        if self.isqueue(a, st) or self.isqueue(b, st):
            return mk("pure", "qcmp", a, b)
        return cmp_lt(a, b, strict)

    def assume_eq(self, lit):
        return lit

    def e_ListComp(self, n, st):
        return self.comp(n, st)

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, n, st):
        if len(n.generators) == 1:
            out = []
            for x, src in self.ev(n.generators[0].iter, st):
                kn = self.known_items(src, x) if not isinstance(src, Raise) else None
                if kn is None or len(kn) > 6:
                    out.append((x, src if isinstance(src, Raise) else mk("node", id(n))))
                    continue
                pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
                g = n.generators[0]
                for y, t in self.comp_known(ast.copy_location(ast.ListComp(elt=ast.copy_location(pair, n), generators=n.generators), n), g, kn, x):
                    if isinstance(t, Raise):
                        out.append((y, t))
                        continue
                    y, d = self.fresh("dict", y, n)
                    keys = []
                    for q in y.heap[(t, "#items")].a:
                        if q.a[0] not in keys:
                            keys.append(q.a[0])
                        y.heap[(d, ("[]", q.a[0]))] = q.a[1]
                    if all(self._definite(k) for k in keys):
                        y.heap[(d, "#items")] = mk("list", *keys)
                    out.append((y, d))
            return out
        return [(st, mk("node", id(n)))]

    def comp(self, n, st):
        if len(n.generators) != 1:
            return [(st, mk("node", id(n)))]
        out = []
        for x, src in self.ev(n.generators[0].iter, st):
            if isinstance(src, Raise):
                out.append((x, src))
                continue
            g = n.generators[0]
            if not g.ifs and isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and n.elt.id == g.target.id and not isinstance(n, ast.SetComp):
                kn = self.known_items(src, x) if src.op == "new" else None
                if kn is not None:
                    x, t = self.fresh("list", x, n)
                    x.heap[(t, "#items")] = mk("list", *kn)
                    out.append((x, t))
                    continue
                out.append((x, mk("pure", "list", self.container(src))))
                continue
            kn = self.known_items(src, x)
            if kn is not None and len(kn) <= 6:
                out.extend(self.comp_known(n, g, kn, x))
                continue
            out.append((x, mk("comp", n, Box(x.env), src)))
        return out

    def comp_known(self, n, g, kn, st):
        cur = [(st, ())]
        save = st.env
        out = []
        for item in kn:
            nx = []
            for s, items in cur:
                s = s.clone()
                for s1, oc in self.assign(g.target, item, s, quiet=True):
                    states = [(s1, True)]
                    for c in g.ifs:
                        n2 = []
                        for a, ok in states:
                            if ok:
                                for b, v in self.cond(c, a):
                                    if isinstance(v, Raise):
                                        out.append((b, v))
                                    else:
                                        n2.append((b, v))
                            else:
                                n2.append((a, ok))
                        states = n2
                    for a, ok in states:
                        if not ok:
                            nx.append((a, items))
                            continue
                        for b, v in self.ev(n.elt, a):
                            if isinstance(v, Raise):
                                out.append((b, v))
                            else:
                                nx.append((b, items + (v,)))
            cur = nx
            self.tick(len(cur))
        for s, items in cur:
            s = s.clone()
            s.env = dict(save)
            s, t = self.fresh("list", s, n)
            s.heap[(t, "#items")] = mk("list", *items)
            out.append((s, t))
        return out

    on_yield = None

    def e_Yield(self, n, st):
        if n.value is None:
            st = self.event(st, Ev("yield"), n)
            st.uniq += 1
            return self._yielded(st, NONE)
        out = []
        for x, t in self.ev(n.value, st):
            if isinstance(t, Raise):
                out.append((x, t))
                continue
            x = self.event(x, Ev("yield", value=t), n)
            x.uniq += 1
            out.extend(self._yielded(x, t))
        return out

    def _yielded(self, x, t):
        """what can happen at a yield: on_yield gives states, or (state, exception) for one that is thrown in"""
        out = []
        for x2 in (self.on_yield(self, x, t) if self.on_yield else [x]):
            if isinstance(x2, tuple):
                out.append(x2)
            else:
                out.append((x2, mk("sent", x2.uniq)))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for x, t in self.ev(n.value, st):
            if isinstance(t, Raise):
                out.append((x, t))
                continue
            x = self.event(x, Ev("yield", name="from", value=t), n)
            x.uniq += 1
            out.append((x, mk("sent", x.uniq)))
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # ------------------------------------------------------------ calls
    def args_of(self, n, st):
        """list of (state, (pos, kw) | Raise)"""
        nodes = list(n.args) + [k.value for k in n.keywords]
        out = []
        for x, ts in self.evs(nodes, st):
            if isinstance(ts, Raise):
                out.append((x, ts))
                continue
            pos = []
            star = None
            for a, t in zip(n.args, ts):
                if isinstance(a, ast.Starred):
                    kn = self.known_items(t, x)
                    if kn is not None:
                        pos.extend(kn)
                    else:
                        star = t
                else:
                    pos.append(t)
            kw = {}
            for k, t in zip(n.keywords, ts[len(n.args):]):
                if k.arg is not None:
                    kw[k.arg] = t
                    continue
                kn = self.known_dict(t, x)
                if kn is not None:
                    kw.update(kn)
                else:
                    kw["**"] = t
            if star is not None:
                kw["*"] = star
            out.append((x, (pos, kw)))
        return out

    def known_dict(self, t, st):
        """{name: term} of a dictionary display with constant string keys that was only changed by assigning to such keys"""
        if t.op == "kwargs" and t.a[1] is NONE:
            return dict(t.a[0])
        if t.op != "new" or t.a[0] != "dict":
            return None
        items = st.heap.get((t, "#items"))
        if items is not None:
            keys = list(items.a)
        elif st.heap.get((t, "#literal")) is TRUE and not any(e.base is t and e.kind == "mut" for e in st.events()):
            keys = [k[1][1] for k in st.heap if k[0] is t and isinstance(k[1], tuple) and k[1][0] == "[]"]
        else:
            return None
        out = {}
        for k in keys:
            v = st.heap.get((t, ("[]", k)))
            if not (tm.is_const(k) and isinstance(k.a[-1], str)) or v is None:
                return None
            out[k.a[-1]] = v
        return out

    def bind(self, fi, recv, pos, kw, st, lamenv=None):
        """map call arguments to parameters: dict param -> term (None when impossible)"""
        m = {}
        params = list(fi.posargs)
        if recv is not None and params and not fi.is_static:
            m[params[0]] = recv
            params = params[1:]
        if len(pos) > len(params):
            if fi.vararg:
                m[fi.vararg] = mk("tuple", *pos[len(params):])
                pos = pos[: len(params)]
            else:
                return None
        for p, t in zip(params, pos):
            m[p] = t
        extra = {}
        for k, t in kw.items():
            if k in ("*", "**"):
                continue
            if k in fi.posargs or k in fi.kwonly:
                m[k] = t
            elif fi.kwarg:
                extra[k] = t
            else:
                return None
        if "*" in kw:
            if fi.vararg and fi.vararg not in m:
                m[fi.vararg] = kw["*"]
            else:
                for i, p in enumerate(params[len(pos):]):
                    m.setdefault(p, self.rd_item(kw["*"], const(i), st))
        if fi.vararg and fi.vararg not in m:
            m[fi.vararg] = mk("tuple")
        if fi.kwarg:
            if "**" in kw and not extra:
                m[fi.kwarg] = kw["**"]
            else:
                m[fi.kwarg] = mk("kwargs", tuple(sorted((k, v) for k, v in extra.items())), kw.get("**", NONE))
        for p in list(fi.posargs) + list(fi.kwonly):
            if p not in m:
                d = fi.defaults.get(p)
                if d is None:
                    if "**" in kw:
                        m[p] = mk("pure", "kw", kw["**"], const(p))
                    else:
                        return None
                else:
                    if "**" in kw and not (kw["**"].op == "kwargs" and not kw["**"].a[0]):
                        src = kw["**"]
                        if src.op == "kwargs":
                            dd = dict(src.a[0])
                            if p in dd:
                                m[p] = dd[p]
                                continue
                    r = self.ev(d, St())
                    m[p] = r[0][1] if r else mk("glob", "?")
        return m

    def e_Call(self, n, st):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            cls = st.fn.split(".")[0]
            out = []
            for x, a in self.args_of(n, st):
                if isinstance(a, Raise):
                    out.append((x, a))
                    continue
                fi = None
                mro = self.m.mro(st.cls) if st.cls in self.m.classes and cls in self.m.mro(st.cls) else self.m.mro(cls)
                for c in mro[mro.index(cls) + 1:] if cls in mro else []:
                    if f.attr in self.m.classes[c].methods:
                        fi = self.m.classes[c].methods[f.attr]
                        break
                self_t = x.env.get("self", mk("sym", "self"))
                if fi is None:
                    out.append((x, NONE))
                else:
                    b = self.bind(fi, self_t, a[0], a[1], x)
                    out.extend(self.dispatch(fi, self_t, b, x, n) if b is not None else self.opaque(mk("func", fi), a, x, n))
            return out
        if isinstance(f, ast.Attribute):
            out = []
            for x, r in self.ev(f.value, st):
                if isinstance(r, Raise):
                    out.append((x, r))
                    continue
                for y, a in self.args_of(n, x):
                    if isinstance(a, Raise):
                        out.append((y, a))
                        continue
                    out.extend(self.method_call(r, f.attr, a[0], a[1], y, n))
            return out
        if isinstance(f, ast.Name) and f.id not in st.env:
            if f.id == "isinstance" and len(n.args) == 2:
                return self.call_isinstance(n, st)
            if f.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1:
                return self.call_anyall(f.id, n.args[0], st, n)
        out = []
        for x, ft in self.ev(f, st):
            if isinstance(ft, Raise):
                out.append((x, ft))
                continue
            for y, a in self.args_of(n, x):
                if isinstance(a, Raise):
                    out.append((y, a))
                    continue
                out.extend(self.call_term(ft, a[0], a[1], y, n))
        return out

    def call_isinstance(self, n, st):
        out = []
        for x, t in self.ev(n.args[0], st):
            if isinstance(t, Raise):
                out.append((x, t))
                continue
            c = n.args[1]
            names = [ast.unparse(e) for e in c.elts] if isinstance(c, ast.Tuple) else [ast.unparse(c)]
            names = [s.split(".")[-1] for s in names]
            ty = self.typeof(t, x)
            lit = None
            if t.op == "const":
                tn = t.a[0]
                lit = TRUE if tn in names else FALSE
            elif t.op == "tuple":
                lit = TRUE if "tuple" in names else FALSE
            elif tm.is_num_const(t):
                lit = TRUE if "float" in names or ("int" in names and tm.num_value(t).denominator == 1) else FALSE
            elif t.op == "new" and t.a[0] in ("list", "dict"):
                lit = TRUE if t.a[0] in names else FALSE
            elif ty in self.m.classes:
                if any(nm in self.m.classes and self.m.issub(ty, nm) for nm in names):
                    lit = TRUE
                elif not any(nm in self.m.classes and self.m.issub(nm, ty) for nm in names):
                    lit = FALSE
                elif ty == "Queue" and t.op == "attr":
                    lit = FALSE  # internal queues are plain queues
                elif t.op == "new":
                    lit = FALSE  # exact class
            if lit is None:
                lit = mk("cmp", "isinst", t, tuple(sorted(names)))
            out.append((x, lit))
        return out

    def call_anyall(self, which, g, st, node):
        """any/all over a comprehension: unrolled like a loop"""
        gen = g.generators[0]
        out = []
        isany = which == "any"
        for x, src in self.ev(gen.iter, st):
            if isinstance(src, Raise):
                out.append((x, src))
                continue
            save = x.env
            known = self.known_items(src, x)
            bound = len(known) if known is not None else max(1, self.k)
            cur = [x]
            for i in range(bound + 1):
                nxt = []
                for y in cur:
                    if known is not None:
                        br, en = ([(y, known[i])], []) if i < bound else ([], [y])
                    else:
                        br, en = self.next_item(src, i, y)
                        if i >= bound:
                            br = []
                    for z in en:
                        out.append((z, FALSE if isany else TRUE))
                    for z, item in br:
                        z = z.clone()
                        for z1, _ in self.assign(gen.target, item, z, quiet=True):
                            states = [(z1, True)]
                            for c in gen.ifs:
                                ns = []
                                for a, ok in states:
                                    ns.extend([(a, ok)] if not ok else [(b, v) for b, v in self.cond(c, a) if not isinstance(v, Raise)])
                                states = ns
                            for a, ok in states:
                                if not ok:
                                    a = a.clone()
                                    a.env = dict(save)
                                    nxt.append(a)
                                    continue
                                for b, v in self.cond(g.elt, a):
                                    if isinstance(v, Raise):
                                        out.append((b, v))
                                        continue
                                    b = b.clone()
                                    b.env = dict(save)
                                    if v == isany:
                                        out.append((b, TRUE if isany else FALSE))
                                    else:
                                        nxt.append(b)
                cur = nxt
                self.tick(len(cur) + len(out))
        return out

    def method_call(self, r, name, pos, kw, st, n):
        h = self.handlers.get("." + name)
        if h is not None:
            res = h(self, st, r, pos, kw, n)
            if res is not None:
                return res
        if name in TEXTFUNCS and not self.trace and not (self.strings and name in NAMEFUNCS):
            return [(st, STR)]
        if self.strings and is_text(r) and not kw:
            t = self.text_method(r, name, pos, st)
            if t is not None:
                return [(st, t)]
        cls = self.typeof(r, st)
        if r.op == "glob" and r.a[0] not in ("g",):
            return self.call_term(mk("glob", r.a[0] + "." + name), pos, kw, st, n)
        if cls in self.m.classes:
            # attribute holding a callable/monitor takes precedence over class methods of the same name when set by constructor
            at = self.m.attr_type(cls, name) if self.m.method(cls, name) is None else None
            if at and at in self.m.classes and self.m.issub(at, "Monitor"):
                return self.call_monitor(self.rd(r, name, st), pos, kw, st, n)
            fi = self.m.method(cls, name)
            if fi is not None:
                return self.call_func(fi, r, pos, kw, st, n)
            v = self.rd(r, name, st)
            return self.call_term(v, pos, kw, st, n)
        res = self.container_call(r, name, pos, kw, st, n)
        if res is not None:
            return res
        if cls is None:
            c = self.m.by_method.get(name, [])
            core = [f for f in c if not f.cls.startswith("Animate") and f.cls not in ("SimpleNamespace",)]
            bases = {self._rootcls(f.cls) for f in core}
            if len(core) >= 1 and len(bases) == 1 and name not in MUTATORS and name not in ("get", "copy", "index", "count", "keys", "values", "items", "format", "join", "split", "replace", "strip", "send", "close", "write"):
                # unique root class: choose the root definition
                fi = next((f for f in core if f.cls == next(iter(bases))), core[0])
                return self.call_func(fi, r, pos, kw, st, n)
        v = st.heap.get((r, name))
        if v is None:
            v = mk("attr", r, name)
        return self.call_term(v, pos, kw, st, n, recv=r, name=name)

    def _rootcls(self, c):
        r = c
        while True:
            b = [x for x in self.m.classes[r].bases if x in self.m.classes]
            if not b or b[0] in ("DynamicClass", "DynamicClass1"):
                return r
            r = b[0]

    def call_monitor(self, mon, pos, kw, st, n):
        if not pos and not kw:
            return [(st, self.rd(mon, "_tally", st))]
        return [(st, mk("app", mon, *pos))]

    def text_method(self, r, name, pos, st):
        cs = []
        for a in pos:
            if a.op == "const" and a.a[0] == "str":
                cs.append(a.a[1])
            elif a.op == "tuple" and all(x.op == "const" and x.a[0] == "str" for x in a.a):
                cs.append(tuple(x.a[1] for x in a.a))
            elif tm.is_num_const(a):
                cs.append(int(tm.num_value(a)))
            elif name == "format":
                continue
            else:
                return None
        if r.op == "const" and name == "format":
            ps = re.split(r"\{(\d*)\}", r.a[1])
            if any("{" in q or "}" in q for q in ps[::2]) or len({q == "" for q in ps[1::2]}) > 1:
                return None
            ix = [int(q) if q else i for i, q in enumerate(ps[1::2])]
            if any(i >= len(pos) for i in ix):
                return None
            return cat(*(const(q) if j % 2 == 0 else fmt(pos[ix[j // 2]]) for j, q in enumerate(ps)))
        if r.op == "const" and name in ("endswith", "startswith", "lower", "upper", "strip", "rstrip", "lstrip", "replace", "removesuffix", "removeprefix"):
            v = getattr(r.a[1], name)(*cs)
            return const(v)
        if r.op == "cat" and name in ("endswith", "startswith") and len(cs) == 1:
            e = r.a[-1] if name == "endswith" else r.a[0]
            alts = cs[0] if isinstance(cs[0], tuple) else (cs[0],)
            if e.op == "const" and all(len(x) <= len(e.a[1]) for x in alts):
                return const(getattr(e.a[1], name)(tuple(alts)))
        if r.op == "cat" and name == "removesuffix" and len(cs) == 1 and r.a[-1].op == "const" and r.a[-1].a[1].endswith(cs[0]):
            return cat(*r.a[:-1], const(r.a[-1].a[1].removesuffix(cs[0])))
        if name in ("lower", "upper") and not pos:
            return cat(*(const(getattr(x.a[1], name)()) if x.op == "const" else mk("pure", "text." + name, x) for x in (r.a if r.op == "cat" else (r,))))
        return None

    def text_slice(self, b, ts):
        lo, hi, step = ts
        if step is not NONE or not all(t is NONE or tm.is_num_const(t) for t in ts):
            return None
        lo, hi = (None if t is NONE else int(tm.num_value(t)) for t in (lo, hi))
        if b.op == "const":
            return const(b.a[1][lo:hi])
        if b.op == "cat":
            parts = list(b.a)
            if hi is not None:
                if hi < 0 and parts[-1].op == "const" and len(parts[-1].a[1]) >= -hi:
                    parts[-1] = const(parts[-1].a[1][:hi])
                else:
                    return None
            if lo is not None and lo != 0:
                if lo < 0 and hi is None and parts[-1].op == "const" and len(parts[-1].a[1]) >= -lo:
                    return const(parts[-1].a[1][lo:])
                if lo > 0 and parts[0].op == "const" and len(parts[0].a[1]) >= lo:
                    parts[0] = const(parts[0].a[1][lo:])
                else:
                    return None
            return cat(*parts)
        return None

    def container_call(self, r, name, pos, kw, st, n):
        c = self.container(r)
        if self.strings and is_text(r) and not kw:
            t = self.text_method(r, name, pos, st)
            if t is not None:
                return [(st, t)]
        if r is STR or (r.op == "const" and r.a[0] == "str"):
            if name in ("replace", "format", "join", "strip", "lower", "upper", "split", "ljust", "rjust"):
                return [(st, mk("pure", "str." + name, r, *pos) if name != "join" else STR)]
        if name in ("keys", "values", "items") and not pos and c.op == "new" and c.a[0] == "dict":
            ks = st.heap.get((c, "#items"))
            vs = [st.heap.get((c, ("[]", k))) for k in ks.a] if ks is not None else [None]
            if ks is not None and (name == "keys" or None not in vs):
                st, t = self.fresh("list", st, n)
                st.heap[(t, "#items")] = mk("list", *(ks.a if name == "keys" else vs if name == "values" else [mk("tuple", k, v) for k, v in zip(ks.a, vs)]))
                return [(st, t)]
        if name in ("keys", "values", "items", "copy") and not pos:
            return [(st, mk("pure", name, c))]
        if name == "get" and 1 <= len(pos) <= 2 and (c.op in ("attr", "new") or self.strings and c.op == "sym"):
            out = []
            dflt = pos[1] if len(pos) > 1 else NONE
            kn = st.heap.get((c, ("[]", pos[0])))
            if kn is not None and kn is not mk("sym", "<deleted>"):
                return [(st, kn)]
            if self.is_literal(c, st):
                if tm.is_const(pos[0]):
                    return [(st, dflt)]
                ks = [k[1][1] for k in st.heap if k[0] is c and isinstance(k[1], tuple) and k[1][0] == "[]"]
                if len(ks) <= 6:
                    cur = [st]
                    for k in ks:
                        nxt = []
                        for y in cur:
                            for z, v in self.assume2(cmp_eq(pos[0], k), y):
                                if v:
                                    out.append((z, st.heap[(c, ("[]", k))]))
                                else:
                                    nxt.append(z)
                        cur = nxt
                    return out + [(y, dflt) for y in cur]
            if c.op == "attr" and c.a[1] == "_qmembers":
                q = pos[0]
                lit = st.heap.get((q, ("in", c.a[0])))
                if lit is None:
                    ep = st.epoch.get(("Q", q), 0)
                    lit = mk("cmp", "in", c.a[0], q, ep) if ep else mk("cmp", "in", c.a[0], q)
            else:
                lit = st.heap.get((c, ("in", pos[0]))) or mk("cmp", "in", pos[0], c)
            for x, v in self.assume2(lit, st):
                out.append((x, self.rd_item(c, pos[0], x) if v else dflt))
            return out
        if name in MUTATORS and (c.op in ("attr", "new", "sym", "idx", "elem", "pure", "app")):
            if c.op == "sym" and c.a[0] == "self":
                return None
            items = st.heap.get((c, "#items"))
            if name == "pop" and len(pos) == 2 and items is not None and c.op == "new" and c.a[0] == "dict" and self._definite(pos[0]) and all(self._definite(i) for i in items.a) and pos[0] not in items.a:
                return [(st, pos[1])]
            if name == "pop" and pos and items is not None and c.op == "new" and c.a[0] == "dict" and pos[0] in items.a and all(self._definite(i) for i in items.a) and st.heap.get((c, ("[]", pos[0]))) is not None:
                v = st.heap[(c, ("[]", pos[0]))]
                st = self.event(st, Ev("delitem", c, "del", args=(pos[0],)), n)
                st.heap[(c, ("[]", pos[0]))] = mk("sym", "<deleted>")
                self._keys_change(st, c, pos[0], False)
                return [(st, v)]
            st = self.event(st, Ev("mut", c, name, args=tuple(pos)), n)
            ret = NONE
            if items is not None:
                it = list(items.a)
                if name == "append" and len(pos) == 1:
                    it.append(pos[0])
                elif name == "extend" and len(pos) == 1 and self.known_items(pos[0], st) is not None:
                    it.extend(self.known_items(pos[0], st))
                elif name == "clear":
                    it = []
                elif name == "pop" and it and (not pos or tm.is_num_const(pos[0])):
                    i = int(tm.num_value(pos[0])) if pos else -1
                    try:
                        ret = it.pop(i)
                    except IndexError:
                        it = None
                else:
                    it = None
                if it is None:
                    st.heap.pop((c, "#items"), None)
                else:
                    st.heap[(c, "#items")] = mk("list", *it)
                    if ret is not NONE:
                        return [(st, ret)]
            else:
                # contents change: truth of the container is not known any more
                if name in ("append", "add", "insert", "appendleft") and c.op == "attr":
                    st.heap[(c, ("touched",))] = TRUE
                    self._retire_truth(st, c)
            if name in ("pop", "popleft", "popitem"):
                if name == "pop" and len(pos) == 1 and tm.is_num_const(pos[0]) and not self.isqueue(c, st):
                    return [(st, mk("elem", c, int(tm.num_value(pos[0]))))]
                if name == "pop" and len(pos) >= 1:
                    kn = st.heap.get((c, ("[]", pos[0])))
                    st.heap[(c, ("[]", pos[0]))] = mk("sym", "<deleted>")
                    return [(st, kn if kn is not None else mk("idx", c, pos[0]))]
                return [(st, mk("elem", c, -1 if name == "pop" else 0))]
            return [(st, NONE)]
        return None

    def _retire_truth(self, st, c):
        lit = truth(c)
        if lit.op == "cmp":
            f = dict(st.facts)
            f[lit] = True
            st.facts = f

    def call_func(self, fi, recv, pos, kw, st, n):
        if self._static(fi):
            recv_b = None
        else:
            recv_b = recv
        b = self.bind(fi, recv_b, pos, kw, st)
        if b is None:
            return self.opaque(mk("func", fi), (pos, kw), st, n)
        return self.dispatch(fi, recv, b, st, n)

    def _static(self, fi):
        return fi.is_static

    def call_term(self, ft, pos, kw, st, n, recv=None, name=None):
        if ft.op == "func":
            return self.call_func(ft.a[0], None, pos, kw, st, n)
        if ft.op == "bound":
            return self.call_func(ft.a[1], ft.a[0], pos, kw, st, n)
        if ft.op == "lambda":
            return self.call_lambda(ft, pos, kw, st, n)
        if self.ismon(ft, st):
            return self.call_monitor(ft, pos, kw, st, n)
        if ft.op == "new" and ft.a[0] in self.m.classes and self.m.method(ft.a[0], "__call__") is not None:
            return self.method_call(ft, "__call__", pos, kw, st, n)
        if ft.op == "glob":
            g = ft.a[0]
            h = self.handlers.get(g)
            if h is not None:
                res = h(self, st, None, pos, kw, n)
                if res is not None:
                    return res
            if g in self.m.classes:
                st, t = self.fresh(g, st, n)
                st = self.event(st, Ev("new", t, g, args={**{i: a for i, a in enumerate(pos)}, **kw}), n)
                return [(st, t)]
            base = g.split(".")[-1]
            if g in ("max", "min") and len(pos) == 2 and not kw:
                out = []
                a, b = pos
                lit = cmp_lt(a, b)
                for x, v in self.assume2(lit, st):
                    out.append((x, (b if v else a) if g == "max" else (a if v else b)))
                return out
            r = self.vector_call(g, pos, kw, st, n)
            if r is not None:
                return r
            if g == "callable" and len(pos) == 1 and (tm.is_const(pos[0]) or pos[0].op in ("list", "tuple", "lin", "prod", "div") or pos[0].op == "new" and pos[0].a[0] in ("list", "dict", "set")):
                return [(st, FALSE)]
            if g == "type" and len(pos) == 1 and pos[0].op == "new" and pos[0].a[0] in self.m.classes:
                return [(st, mk("glob", pos[0].a[0]))]
            if g == "len" and len(pos) == 1 and self.strings and is_text(pos[0]):
                return [(st, text_len(pos[0]))]
            if g == "len" and len(pos) == 1:
                c = self.container(pos[0])
                if self.isqueue(c, st):
                    return [(st, self.rd(c, "_length", st))]
                if c.op == "pure" and c.a[0] == "qlist":
                    return [(st, c.a[2])]
                kn = self.known_items(c, st)
                if kn is not None:
                    return [(st, const(len(kn)))]
                if c.op == "pure" and c.a[0] in ("list", "set", "reversed", "sorted") and c.a[0] != "set":
                    c = c.a[1]
                return [(st, mk("pure", "len", c))]
            if g == "bool" and len(pos) == 1:
                return [(x, TRUE if v else FALSE) for x, v in self.branch(pos[0], st)]
            if g == "hasattr" and len(pos) == 2:
                return [(st, mk("cmp", "truthy", mk("pure", "hasattr", *pos)))]
            if g in ("getattr",) and len(pos) >= 2 and pos[1].op == "const":
                return [(st, self.rd(pos[0], pos[1].a[1], st))] if len(pos) == 2 else [(st, mk("pure", "getattr", *pos))]
            if g in ("OrderedDict", "collections.OrderedDict", "dict", "list", "set", "collections.defaultdict", "collections.deque") and not pos and not kw:
                w = "list" if base == "list" else "dict"
                st, t = self.fresh(w, st, n)
                st.heap[(t, "#items")] = mk("list")
                return [(st, t)]
            if g in ("dict", "OrderedDict", "collections.OrderedDict") and kw and "**" not in kw and "*" not in kw and (not pos or len(pos) == 1 and self.known_dict(pos[0], st) is not None):
                d = {**(self.known_dict(pos[0], st) if pos else {}), **kw}
                st, t = self.fresh("dict", st, n)
                for k, v in d.items():
                    st.heap[(t, ("[]", const(k)))] = v
                st.heap[(t, "#literal")] = TRUE
                return [(st, t)]
            if g in ("set", "frozenset") and len(pos) == 1:
                kn = self.known_items(pos[0], st)
                if kn is not None and all(self._definite(t) for t in kn):
                    st, t = self.fresh("dict", st, n)
                    st.heap[(t, "#items")] = mk("list", *dict.fromkeys(kn))
                    return [(st, t)]
            if g == "next" and pos:
                kn = self.known_items(pos[0], st)
                if kn:
                    return [(st, kn[0])]
                if kn is not None and len(pos) == 2:
                    return [(st, pos[1])]
            if g in ("list", "tuple", "iter") and len(pos) == 1:
                kn = self.known_items(pos[0], st)
                if kn is not None and g == "tuple":
                    return [(st, mk("tuple", *kn))]
                if kn is not None and g == "list":
                    st, t = self.fresh("list", st, n)
                    st.heap[(t, "#items")] = mk("list", *kn)
                    return [(st, t)]
                c = self.container(pos[0])
                if self.isqueue(c, st) and g != "iter":
                    return [(st, mk("pure", "qlist", c, self.rd(c, "_length", st)))]
                return [(st, mk("pure", "list", c))]
            if g == "str" and self.strings and len(pos) == 1 and pos[0] is not STR:
                return [(st, fmt(pos[0]))]
            if g == "str":
                return [(st, mk("pure", "str", *pos) if pos and not tm.is_const(pos[0]) else STR)]
            if g in ("float", "int", "math.floor", "math.ceil", "math.trunc") and len(pos) == 1 and tm.is_num_const(pos[0]):
                v = tm.num_value(pos[0])
                return [(st, pos[0] if g == "float" else tm.lin_const(Fraction({"int": int, "math.trunc": int, "math.floor": math.floor, "math.ceil": math.ceil}[g](v))))]
            if g == "float" and len(pos) == 1 and pos[0].op == "const" and pos[0].a[1] == "inf":
                return [(st, INF)]
            if g in PURE_BUILTINS or g.startswith(("math.", "operator.", "itertools.")):
                return [(st, mk("pure", g, *pos, *[mk("kw", k, v) for k, v in sorted(kw.items())]))]
            if g.startswith("heapq."):
                pass
        return self.opaque(ft, (pos, kw), st, n)

    def less(self, a, b, st, n):
        """[(state, bool)]: a < b, tuples lexicographically"""
        out = []
        for x, t in self.compare(ast.Lt(), a, b, st, n):
            out.extend(self.assume2(truth(t), x))
        return out

    def insert_sorted(self, done, item, st, n):
        """[(state, list)]: item put behind those that are not greater; done is a sorted list of (key, value)"""
        cur, out = [(st, len(done))], []
        while cur:
            nxt = []
            for x, i in cur:
                if i == 0:
                    out.append((x, [item] + done))
                    continue
                for y, v in self.less(item[0], done[i - 1][0], x, n):
                    if v:
                        nxt.append((y, i - 1))
                    else:
                        out.append((y, done[:i] + [item] + done[i:]))
            cur = nxt
        return out

    def vector_call(self, g, pos, kw, st, n):
        """functions of lists whose elements are known"""
        base = g.split(".")[-1]
        if base == "array" and g in ("array.array", "array") and 1 <= len(pos) <= 2 and not kw:
            kn = self.known_items(pos[1], st) if len(pos) == 2 else []
            if kn is None:
                return None
            st, t = self.fresh("list", st, n)
            st.heap[(t, "#items")] = mk("list", *kn)
            return [(st, t)]
        if g in ("sum", "math.fsum") and pos and not kw:
            kn = self.known_items(pos[0], st)
            if kn is None:
                return None
            r = pos[1] if len(pos) > 1 else const(0)
            for t in kn:
                r = tm.add(r, t)
            return [(st, r)]
        if g in ("max", "min") and not [k for k in kw if k != "default"] and pos:
            kn = self.known_items(pos[0], st) if len(pos) == 1 else list(pos)
            if kn is None:
                return None
            if not kn:
                return [(st, kw["default"])] if "default" in kw else [(st, Raise("ValueError", n.lineno, st.fn))]
            cur = [(st, kn[0])]
            for t in kn[1:]:
                nx = []
                for x, r in cur:
                    for y, v in self.less(r, t, x, n) if g == "max" else self.less(t, r, x, n):
                        nx.append((y, t if v else r))
                cur = nx
            return cur
        if g == "sorted" and len(pos) == 1 and set(kw) <= {"key", "reverse"} and kw.get("reverse", FALSE) is FALSE:
            kn = self.known_items(pos[0], st)
            if kn is None or len(kn) > 5 or not all(t.op in ("tuple", "lin") or tm.is_num_const(t) for t in kn):
                return None
            cur = [(st, [])]
            for t in kn:
                nx = []
                for x, done in cur:
                    keys = self.call_term(kw["key"], [t], {}, x, n) if "key" in kw and kw["key"] is not NONE else [(x, t)]
                    for y, k in keys:
                        if isinstance(k, Raise):
                            return None
                        nx.extend(self.insert_sorted(done, (k, t), y, n))
                cur = nx
                self.tick(len(cur))
            out = []
            for x, done in cur:
                x, r = self.fresh("list", x, n)
                x.heap[(r, "#items")] = mk("list", *(v for _, v in done))
                out.append((x, r))
            return out
        if base in ("bisect_left", "bisect_right", "bisect") and len(pos) == 2 and not kw:
            kn = self.known_items(pos[0], st)
            if kn is None:
                return None
            cur, out = [st], []
            for i, t in enumerate(kn):
                nx = []
                for x in cur:
                    for y, v in self.less(t, pos[1], x, n) if base == "bisect_left" else self.less(pos[1], t, x, n):
                        if v == (base == "bisect_left"):
                            nx.append(y)
                        else:
                            out.append((y, const(i)))
                cur = nx
            return out + [(x, const(len(kn))) for x in cur]
        if g == "heapq.merge" and pos and not kw:
            ks = [self.known_items(p, st) for p in pos]
            if any(k is None for k in ks):
                return None
            cur, out = [(st, tuple(0 for _ in ks), ())], []
            while cur:
                nx = []
                for x, ix, acc in cur:
                    left = [j for j in range(len(ks)) if ix[j] < len(ks[j])]
                    if not left:
                        x, r = self.fresh("list", x, n)
                        x.heap[(r, "#items")] = mk("list", *acc)
                        out.append((x, r))
                        continue
                    best = [(x, left[0])]
                    for j in left[1:]:
                        b2 = []
                        for y, m in best:
                            for z, v in self.less(ks[j][ix[j]], ks[m][ix[m]], y, n):
                                b2.append((z, j if v else m))
                        best = b2
                    for y, m in best:
                        nx.append((y, tuple(i + (k == m) for k, i in enumerate(ix)), acc + (ks[m][ix[m]],)))
                cur = nx
                self.tick(len(cur) + len(out))
            return out
        return None

    def call_lambda(self, ft, pos, kw, st, n):
        node, box = ft.a
        if ("lambda", id(node)) in st.stack or len(st.stack) > self.max_depth + 4:
            return self.opaque(ft, (pos, kw), st, n)
        fake = node
        if isinstance(node, ast.Lambda):
            fi = Func.__new__(Func)
            fdef = ast.FunctionDef(name="<lambda>", args=node.args, body=[ast.copy_location(ast.Return(value=node.body), node.body)], decorator_list=[], returns=None)
            ast.copy_location(fdef, node)
            fi.__init__("<lambda>", fdef, None, "")
        else:
            fi = Func(node.name, node, None, "")
        if fi.is_generator:
            return self.opaque(ft, (pos, kw), st, n)
        b = self.bind(fi, None, pos, kw, st)
        if b is None:
            return self.opaque(ft, (pos, kw), st, n)
        y = st.clone()
        save_env, save_stack = y.env, y.stack
        env = dict(box.v)
        # closures see the current values of the enclosing frame when still on it
        for k, v in save_env.items():
            if k in env:
                env[k] = v
        env.update(b)
        y.env = env
        y.stack = save_stack + (("lambda", id(node)),)
        out = []
        for z, oc in self.block(fi.node.body, y, frozenset()):
            z = z.clone()
            z.env = dict(save_env)
            z.stack = save_stack
            if isinstance(oc, tuple) and oc[0] == "raise":
                out.append((z, oc[1]))
            elif isinstance(oc, tuple):
                out.append((z, oc[1]))
            else:
                out.append((z, NONE))
        return out

    def opaque(self, ft, a, st, n):
        pos, kw = a
        self.stats["opaque"] += 1
        self.opaque_calls.add(repr(ft))
        st = self.event(st, Ev("ucall", ft, "call", args=(tuple(pos), tuple(sorted(kw.items())))), n)
        if ft.op == "func":
            self.havoc(st, self.m.summaries().get(ft.a[0].qual, ()))
        out = []
        if ft.op in ("sym", "attr", "elem", "idx", "app"):
            t = mk("app", ft, *pos)
        else:
            st.uniq += 1
            t = mk("res", st.uniq, None, repr(ft)[:60])
        out.append((st, t))
        if st.intry:
            s2 = st.clone()
            out.append((s2, Raise("EXC?", n.lineno, st.fn, explicit=False)))
        return out

    def havoc(self, st, attrs):
        """in place: forget everything about the given attribute names"""
        attrs = set(attrs)
        if not attrs:
            return
        for a in attrs:
            st.uniq += 1
            st.epoch[a] = st.uniq
        for k in list(st.heap):
            if isinstance(k[1], str) and k[1] in attrs:
                del st.heap[k]
            elif not isinstance(k[1], str) and k[0].op == "attr" and k[0].a[1] in attrs:
                del st.heap[k]

    def dispatch(self, fi, recv, b, st, n, setter=False):
        h = self.handlers.get(fi.qual)
        if h is None and fi.cls:
            h = self.handlers.get("*." + fi.name)
        if h is not None:
            res = h(self, st, recv, b, n, fi)
            if res is not None:
                return res
        if fi.qual in self.prim or fi.name in self.prim:
            st = self.event(st, Ev("call", recv, fi.qual, args=b), n)
            self.havoc(st, self.m.summaries().get(fi.qual, ()))
            st.uniq += 1
            return [(st, mk("res", st.uniq, self._rettype(fi), fi.qual))]
        if fi.name in TEXTFUNCS and not self.trace and not (self.strings and fi.name in NAMEFUNCS):
            return [(st, STR)]
        ok = (
            st.stack.count(fi.qual) < self.recurse
            and len(st.stack) <= self.max_depth
            and not fi.is_generator
            and fi.qual not in self.noinline
            and fi.name not in self.noinline
            and (self.only_inline is None or self.only_inline(fi))
            and "contextlib.contextmanager" not in fi.decorators
        )
        if not ok:
            if "contextlib.contextmanager" in fi.decorators:
                return [(st, mk("sym", "<ctx>"))]
            st = self.event(st, Ev("call", recv, fi.qual, args=b), n)
            self.havoc(st, self.m.summaries().get(fi.qual, ()))
            st.uniq += 1
            return [(st, mk("res", st.uniq, self._rettype(fi), fi.qual))]
        self.stats["inlined"] += 1
        self.inlined_funcs.add(fi.qual)
        y = st.clone()
        save = (y.env, y.fn, y.cls, y.stack, y.intry)
        y.env = dict(b)
        y.fn = fi.qual
        if fi.cls and recv is not None and recv.op == "sym" and recv.a[0] == "self":
            pass
        elif fi.cls:
            pass
        y.stack = save[3] + (fi.qual,)
        out = []
        for z, oc in self.block(fi.node.body, y, frozenset()):
            z = z.clone()
            z.env, z.fn, z.cls, z.stack, z.intry = dict(save[0]), save[1], save[2], save[3], save[4]
            if isinstance(oc, tuple) and oc[0] == "raise":
                out.append((z, oc[1]))
            elif isinstance(oc, tuple):
                out.append((z, oc[1]))
            else:
                out.append((z, NONE))
        if len(out) > 1:
            norm = [x for x in out if not isinstance(x[1], Raise)]
            exc = [x for x in out if isinstance(x[1], Raise)]
            # merge states that return the same value
            norm2 = [(s, oc) for s, oc in self.merge([(s, ("v", t)) for s, t in norm], frozenset(save[0]))]
            out = [(s, oc[1]) for s, oc in norm2] + exc
        return out

    def _rettype(self, fi):
        r = fi.node.returns
        if r is None:
            return None
        s = r.value if isinstance(r, ast.Constant) and isinstance(r.value, str) else (r.id if isinstance(r, ast.Name) else None)
        return s if s in self.m.classes else None


STABLE_ATTRS = {
    "env", "_requesters", "_claimers", "_waiters", "_from_store_requesters", "_to_store_requesters", "status", "mode", "capacity", "length",
    "length_of_stay", "available_quantity", "claimed_quantity", "occupancy", "value", "_head", "_tail", "_main", "_anonymous", "_preemptive",
    "_event_list", "_standbylist", "_pendingstandbylist", "_yieldless", "_honor_only_first", "_honor_only_highest_priority", "_glet", "_level", "_stats_only",
}


class Box:
    """wrapper so that closures are hashable by identity"""

    def __init__(self, v):
        self.v = dict(v)

    def __repr__(self):
        return "<env>"


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)


def _handler_names(h):
    if h.type is None:
        return ["*"]
    if isinstance(h.type, ast.Tuple):
        return [ast.unparse(e).split(".")[-1] for e in h.type.elts]
    return [ast.unparse(h.type).split(".")[-1]]


def _builtin_exc_sub(name, names):
    import builtins

    c = getattr(builtins, name, None)
    if not isinstance(c, type):
        return False
    for n in names:
        d = getattr(builtins, n, None)
        if isinstance(d, type) and issubclass(c, d):
            return True
    return False
