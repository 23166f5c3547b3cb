"""Normal form of a term as a quotient of two polynomials, to compare formulas that are written differently."""
from fractions import Fraction
from . import terms as tm


def _padd(p, q, f=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + f * v
    return {k: v for k, v in r.items() if v}


def _pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            m = dict(a)
            for t, e in b:
                m[t] = m.get(t, 0) + e
            k = tuple(sorted(((t, e) for t, e in m.items() if e), key=lambda z: z[0].id))
            r[k] = r.get(k, 0) + x * y
    return {k: v for k, v in r.items() if v}


ONE = {(): Fraction(1)}


def norm(t):
    """(numerator, denominator)"""
    if t.op == "lin":
        n, d = {(): t.a[0]} if t.a[0] else {}, ONE
        for k, v in t.a[1]:
            kn, kd = norm(k)
            if kd == d:
                n = _padd(n, kn, v)
            else:
                n, d = _padd(_pmul(n, kd), _pmul(kn, d), v), _pmul(d, kd)
        return n, d
    if t.op == "prod":
        n, d = ONE, ONE
        for k, e in t.a[0]:
            kn, kd = norm(k)
            for _ in range(abs(int(e))):
                if e > 0:
                    n, d = _pmul(n, kn), _pmul(d, kd)
                else:
                    n, d = _pmul(n, kd), _pmul(d, kn)
        return n, d
    if t.op == "div":
        an, ad = norm(t.a[0])
        bn, bd = norm(t.a[1])
        return _pmul(an, bd), _pmul(ad, bn)
    if t is tm.TRUE:
        return ONE, ONE
    if t is tm.FALSE:
        return {}, ONE
    return {((t, 1),): Fraction(1)}, ONE


def same(a, b):
    """the two formulas are equal (where they are defined)"""
    if a is b:
        return True
    an, ad = norm(a)
    bn, bd = norm(b)
    return _pmul(an, bd) == _pmul(bn, ad)


def ratio_const(a, b):
    """the number k with a == k*b, or None"""
    an, ad = norm(a)
    bn, bd = norm(b)
    p, q = _pmul(an, bd), _pmul(bn, ad)
    if not p or set(p) != set(q):
        return None
    ks = {p[m] / q[m] for m in p}
    return ks.pop() if len(ks) == 1 else None
