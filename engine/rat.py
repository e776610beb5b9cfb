"""Rational functions over named variables with square roots and opaque functions as further variables; the root of r is a
variable whose square is rewritten to r.  Equality is decided on the normal form (coefficients compared up to 1e-9)."""
from fractions import Fraction


class R:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {(): Fraction(1)}


def const(v):
    v = Fraction(v)
    return R({(): v} if v else {})


def var(x):
    return R({((x, 1),): Fraction(1)})


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=lambda q: str(q[0])))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = mmul(m, m2)
            v = r.get(k, 0) + c * c2
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


class Field:
    """holds the atoms"""
    limit = 40000

    def __init__(self):
        self.atoms = []

    def add(self, a, b, k=1):
        if a.d == b.d:
            return R(padd(a.n, b.n, k), a.d)
        return self.red(R(padd(pmul(a.n, b.d), pmul(b.n, a.d), k), pmul(a.d, b.d)))

    def sub(self, a, b):
        return self.add(a, b, -1)

    def mul(self, a, b):
        return self.red(R(pmul(a.n, b.n), pmul(a.d, b.d)))

    def div(self, a, b):
        if not b.n:
            raise ZeroDivisionError
        return self.red(R(pmul(a.n, b.d), pmul(a.d, b.n)))

    def power(self, a, k):
        if k < 0:
            return self.div(const(1), self.power(a, -k))
        r = const(1)
        for _ in range(k):
            r = self.mul(r, a)
        return r

    def atom(self, name, args):
        for i, (n, a) in enumerate(self.atoms):
            if n == name and len(a) == len(args) and all(self.eq(x, y) for x, y in zip(a, args)):
                return var(('~', i))
        self.atoms.append((name, args))
        return var(('~', len(self.atoms) - 1))

    def sqrt(self, a):
        if not a.n:
            return const(0)
        return self.atom('sqrt', [a])

    def red(self, r):
        """rewrite squares of roots; cancel common monomials"""
        n = self.redp(r.n)
        d = self.redp(r.d)
        if n.d != {(): 1} or d.d != {(): 1}:
            r = R(pmul(n.n, d.d), pmul(n.d, d.n))
            return self.red(r)
        n, d = n.n, d.n
        if not n:
            return const(0)
        if len(n) > self.limit or len(d) > self.limit:
            raise OverflowError
        g = None
        for p in (n, d):
            for m in p:
                e = dict(m)
                g = e if g is None else {x: min(k, e.get(x, 0)) for x, k in g.items() if x in e}
                if not g:
                    break
            if not g:
                break
        if g:
            def cut(m):
                return tuple((x, k - g.get(x, 0)) for x, k in m if k - g.get(x, 0))
            n = {cut(m): c for m, c in n.items()}
            d = {cut(m): c for m, c in d.items()}
        if len(d) == 1 and () in d and d[()] != 1:
            k = d[()]
            n = {m: c / k for m, c in n.items()}
            d = {(): Fraction(1)}
        return R(n, d)

    def redp(self, p):
        todo = [(m, c) for m, c in p.items() if any(e > 1 and isinstance(x, tuple) and x[0] == '~' and self.atoms[x[1]][0] == 'sqrt' for x, e in m)]
        if not todo:
            return R(p)
        rest = dict(p)
        acc = None
        for m, c in todo:
            del rest[m]
            keep, t = [], None
            for x, e in m:
                if e > 1 and isinstance(x, tuple) and x[0] == '~' and self.atoms[x[1]][0] == 'sqrt':
                    q = self.power(self.atoms[x[1]][1][0], e // 2)
                    t = q if t is None else self.mul(t, q)
                    e %= 2
                if e:
                    keep.append((x, e))
            t = self.mul(t, R({tuple(keep): c}))
            acc = t if acc is None else self.add(acc, t)
        return self.add(acc, R(rest))

    def eq(self, a, b):
        d = self.sub(a, b) if a.d == b.d else self.red(R(padd(pmul(a.n, b.d), pmul(b.n, a.d), -1)))
        big = max([abs(c) for c in pmul(a.n, b.d).values()] + [abs(c) for c in pmul(b.n, a.d).values()] + [0])
        return all(abs(c) <= big * Fraction(1, 10**9) for c in d.n.values())

    def ratio(self, a, b):
        """the constant a/b, or None"""
        if not a.n or not b.n:
            return None
        x, y = pmul(a.n, b.d), pmul(b.n, a.d)
        m = next(iter(y))
        if m not in x:
            return None
        k = x[m] / y[m]
        return k if self.eq(a, self.mul(const(k), b)) else None

    def has(self, a, pred):
        for p in (a.n, a.d):
            for m in p:
                for x, _ in m:
                    if isinstance(x, tuple) and x[0] == '~':
                        if any(self.has(y, pred) for y in self.atoms[x[1]][1]):
                            return True
                    elif pred(x):
                        return True
        return False

    # ------------------------------------------------------------ terms
    def of(self, t, leaf):
        """value of a term; leaf(t) gives the rational function of a leaf or None"""
        v = leaf(t)
        if v is not None:
            return v
        k = t.k
        if k == 'c' and isinstance(t.a[0], (int, float)):
            return const(t.a[0])
        if k == 'lin':
            r = const(t.a[0])
            for a, c in t.a[1]:
                r = self.add(r, self.mul(const(c), self.of(a, leaf)))
            return r
        if k == 'mul':
            r = const(1)
            for a in t.a:
                r = self.mul(r, self.of(a, leaf))
            return r
        if k == 'div':
            return self.div(self.of(t.a[0], leaf), self.of(t.a[1], leaf))
        if k == 'abs':
            a = self.of(t.a[0], leaf)
            return self.sqrt(self.mul(a, a))
        if k == 'fnv' and isinstance(t.a[0], str):
            n = t.a[0].rstrip('f') if t.a[0] in ('sqrtf', 'powf') else t.a[0]
            args = [self.of(a, leaf) for a in t.a[1:] if hasattr(a, 'k')]
            if n == 'sqrt':
                return self.sqrt(args[0])
            if n == 'hypot':
                return self.sqrt(self.add(self.mul(args[0], args[0]), self.mul(args[1], args[1])))
            if n == 'pow' and t.a[2].k == 'c':
                e = t.a[2].a[0]
                if e == int(e):
                    return self.power(args[0], int(e))
                if e == 0.5:
                    return self.sqrt(args[0])
            return self.atom(n, args)
        return self.atom(k + '/' + '/'.join(str(a) for a in t.a if not hasattr(a, 'k')), [self.of(a, leaf) for a in t.a if hasattr(a, 'k')])
