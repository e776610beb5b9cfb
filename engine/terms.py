"""Hash-consed terms, linear forms and a small inequality prover."""
from fractions import Fraction


class T:
    __slots__ = ('k', 'a', 'id', 'aux')

    def __repr__(self):
        return show(self)


_tab = {}
_next = [0]


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _next[0] += 1
        t.id = _next[0]
        t.aux = None
        _tab[key] = t
    return t


def reset():
    _tab.clear()


def C(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and abs(v) < 1e15 and v == int(v):
        v = int(v)
    return mk('c', v)


_fresh = [0]


def fresh(name='s'):
    _fresh[0] += 1
    return mk('sym', name, _fresh[0])


def isc(t):
    return t.k == 'c' and isinstance(t.a[0], (int, float))


# ------------------------------------------------------------------ linear
def lin(t):
    """-> (const, {atom: coef})"""
    if t.k == 'c' and isinstance(t.a[0], (int, float)):
        return t.a[0], {}
    if t.k == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def unlin(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', c, items)


def add(a, b, sb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return fold_idx(unlin(ca + sb * cb, d))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin(a)
    return unlin(c * k, {x: v * k for x, v in d.items()})


def mul(a, b):
    if isc(a):
        return scale(b, a.a[0])
    if isc(b):
        return scale(a, b.a[0])
    # distribute over linear forms
    ca, da = lin(a)
    cb, db = lin(b)
    if len(da) * len(db) <= 9 and (len(da) > 1 or len(db) > 1 or ca or cb):
        r = C(ca * cb)
        for k, v in da.items():
            r = add(r, scale(k, v * cb))
        for k, v in db.items():
            r = add(r, scale(k, v * ca))
        for k, v in da.items():
            for k2, v2 in db.items():
                r = add(r, scale(mulatom(k, k2), v * v2))
        return r
    return mulatom(a, b)


def mulatom(a, b):
    fs = []
    for x in (a, b):
        if x.k == 'mul':
            fs += list(x.a)
        else:
            fs.append(x)
    fs.sort(key=lambda t: t.id)
    return mk('mul', *fs)


DX = 'richdem::d8x'
DY = 'richdem::d8y'


def fold_idx(t):
    """idx(W,x,y) + nsh(W,n) -> idx(W, x+dx[n], y+dy[n])"""
    if t.k != 'lin':
        return t
    c, d = lin(t)
    idx = None
    for k, v in d.items():
        if k.k == 'idx' and v == 1:
            idx = k
    if idx is None:
        return t
    W, x, y = idx.a
    rest = dict(d)
    del rest[idx]
    ok = True
    ch = False
    for k, v in list(rest.items()):
        if k.k == 'nsh' and k.a[0] is W and v in (1, -1):
            x = add(x, mk('tb', DX, k.a[1]), v)
            y = add(y, mk('tb', DY, k.a[1]), v)
            del rest[k]
            ch = True
    if not ch:
        return t
    base = mk('idx', W, x, y)
    return unlin(c, {**rest, base: 1})


def split_idx(i, W):
    """flat index term -> (x, y) terms relative to width W"""
    i = strip_ucast(i)
    if i.k == 'idx' and i.a[0] is W:
        return i.a[1], i.a[2]
    c, d = lin(i)
    if len(d) >= 1:
        x = C(c)
        y = C(0)
        used = False
        leftover = {}
        opq = None
        for k, v in d.items():
            if k is W and not isc(W):
                y = add(y, C(v))
                used = True
            elif k.k == 'mul' and W in k.a:
                o = list(k.a)
                o.remove(W)
                f = o[0] if len(o) == 1 else mk('mul', *o)
                y = add(y, scale(f, v))
                used = True
            elif k.k == 'idx' and k.a[0] is W and v == 1:
                x = add(x, k.a[1])
                y = add(y, k.a[2])
                used = True
            elif k.k == 'nsh' and k.a[0] is W and v in (1, -1):
                x = add(x, mk('tb', DX, k.a[1]), v)
                y = add(y, mk('tb', DY, k.a[1]), v)
                used = True
            else:
                leftover[k] = v
        if used and len(leftover) <= 2:
            # a remaining plain atom next to row terms is the column, next to a
            # pure neighbour shift it is itself a flat index
            rows = any((k is W) or (k.k == 'mul' and W in k.a) or k.k == 'idx' for k in d)
            if rows:
                x = add(x, unlin(0, leftover))
                return x, y
            if len(leftover) == 1:
                (k, v), = leftover.items()
                if v == 1:
                    return add(x, mk('ix', W, k)), add(y, mk('iy', W, k))
        elif not used and len(d) == 1:
            (k, v), = d.items()
            if v == 1 and c != 0:
                return add(mk('ix', W, k), C(c)), mk('iy', W, k)
    return mk('ix', W, i), mk('iy', W, i)


def mkidx(W, x, y):
    x = strip_ucast(x)
    y = strip_ucast(y)
    if x.k == 'ix' and y.k == 'iy' and x.a == y.a and x.a[0] is W:
        return x.a[1]
    return mk('idx', W, x, y)


def strip_ucast(t):
    while t.k == 'ucast':
        t = t.a[0]
    if t.k == 'lin' and any(k.k == 'ucast' for k, _ in t.a[1]):
        r = C(t.a[0])
        for k, v in t.a[1]:
            r = add(r, scale(strip_ucast(k), v))
        return r
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 9:
        return '..'
    k, a = t.k, t.a
    if k == 'c':
        return str(a[0])
    if k == 'sym':
        return '%s#%s' % (a[0], a[1]) if len(a) > 1 else str(a[0])
    if k == 'lin':
        s = []
        for x, v in a[1]:
            s.append((('+' if v > 0 else '-') if abs(v) == 1 else '%+g*' % v) + show(x, d + 1))
        return '(' + ''.join(s).lstrip('+') + ('%+g' % a[0] if a[0] else '') + ')'
    if k == 'cmp':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if k == 'v':
        return str(a[0]).split('@')[0]
    if k == 'fld':
        return show(a[0], d + 1) + '.' + a[1]
    if k == 'el':
        return show(a[0], d + 1) + '[' + ','.join(show(x, d + 1) for x in a[1:]) + ']'
    if k == 'ld':
        return show(a[0], d + 1)
    if k == 'tb':
        return str(a[0]).split('::')[-1] + '[' + show(a[1], d + 1) + ']'
    return k + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


# ------------------------------------------------------------------ facts
class Facts:
    """Conjunction of linear facts.  ineq: (c, items, strict) meaning c+sum <= 0
    (or < 0).  diseq: (c, items) meaning != 0."""
    __slots__ = ('ineq', 'diseq', 'byatom', 'atoms', 'env', '_n')

    def __init__(self, env):
        self.ineq = {}
        self.diseq = {}
        self.byatom = {}
        self.atoms = frozenset()
        self.env = env

    def copy(self):
        f = Facts.__new__(Facts)
        f.ineq = dict(self.ineq)
        f.diseq = dict(self.diseq)
        f.byatom = {k: list(v) for k, v in self.byatom.items()}
        f.atoms = self.atoms
        f.env = self.env
        return f

    # --- built-in bounds
    def bounds(self, a):
        """(lo, hi) of an atom from its kind only"""
        e = self.env
        if a.k == 'tb':
            tab = e.table(a.a[0])
            if tab and all(isinstance(x, (int, float)) for x in tab):
                lo, hi = 0, len(tab) - 1
                n = a.a[1]
                if isc(n):
                    i = int(n.a[0])
                    if 0 <= i < len(tab):
                        return tab[i], tab[i]
                lo2 = self.const_bound(n, -1)
                hi2 = self.const_bound(n, 1)
                lo = max(lo, lo2) if lo2 is not None else lo
                hi = min(hi, hi2) if hi2 is not None else hi
                if lo <= hi:
                    s = tab[int(lo):int(hi) + 1]
                    return min(s), max(s)
            return None, None
        if a.k in ('ix', 'iy', 'ucast', 'abs', 'size', 'cmp', 'not', 'and', 'or'):
            return 0, (1 if a.k in ('cmp', 'not', 'and', 'or') else None)
        if a in e.nonneg:
            return e.nonneg[a], None
        if a.k == 'mul' and all((self.bounds(x)[0] or -1) >= 0 for x in a.a):
            p = 1
            for x in a.a:
                p *= self.bounds(x)[0]
            return p, None
        return None, None

    def const_bound(self, t, sign):
        """constant upper (sign=1) / lower (sign=-1) bound of the integer term t
        from single-atom facts"""
        best = None
        c0, d0 = lin(t)
        if not d0:
            return c0
        if len(d0) != 1:
            return None
        (at, cf), = d0.items()
        for (c, items, strict) in self.byatom.get(at, ()):
            if len(items) == 1:
                k = items[0][1]
                # k*at + c <= 0
                q = Fraction(-c) / Fraction(k)
                if k > 0:
                    b = q.numerator // q.denominator
                    kind = 1
                else:
                    b = -((-q.numerator) // q.denominator)
                    kind = -1
                if (kind == 1) == ((sign == 1) == (cf > 0)):
                    v = b * cf + c0
                    if best is None or (v < best if sign == 1 else v > best):
                        best = v
        return best

    def add_le(self, c, d, strict=False):
        items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
        if not items:
            return c < 0 or (c == 0 and not strict)
        key = (items, strict)
        old = self.ineq.get(key)
        if old is not None and old[0] >= c:
            return True
        if self.prove_le(-c, {k: -v for k, v in items}, not strict):
            # negation already known: c+sum > 0 (or >= 0 for strict)
            return False
        if old is not None:
            for k, _ in items:
                self.byatom[k].remove(old)
        f = (c, items, strict)
        self.ineq[key] = f
        for k, _ in items:
            self.byatom.setdefault(k, []).append(f)
        return True

    def add_ne(self, c, d, isint=True):
        items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].id))
        if not items:
            return c != 0
        if items[0][1] < 0:
            c = -c
            items = tuple((k, -v) for k, v in items)
        if self.prove_le(c, dict(items)) and self.prove_le(-c, {k: -v for k, v in items}):
            return False
        self.diseq[(c, items)] = isint
        return True

    def tighten(self):
        for (c, items), isint in list(self.diseq.items()):
            d = dict(items)
            nd = {k: -v for k, v in items}
            one = 1 if isint else 0
            le = self.prove_le(c, d, depth=3)
            ge = self.prove_le(-c, nd, depth=3)
            if le and ge:
                return False
            if le:
                if not self.add_le(c + one, d, not isint):
                    return False
            elif ge:
                if not self.add_le(-c + one, nd, not isint):
                    return False
        return True

    def prove_le(self, c, d, strict=False, depth=5):
        return self._prove(c, {k: v for k, v in d.items() if v != 0}, strict, depth, frozenset())

    def _prove(self, c, d, strict, depth, used):
        if not d:
            return c < 0 or (c == 0 and not strict)
        # interval quick test
        s = c
        ok = True
        for k, v in d.items():
            lo, hi = self.bounds(k)
            b = hi if v > 0 else lo
            if b is None:
                ok = False
                break
            s += v * b
        if ok and (s < 0 or (s == 0 and not strict)):
            return True
        if depth == 0:
            return False
        # choose the atom with the fewest usable facts
        best = None
        for k, v in d.items():
            cand = [f for f in self.byatom.get(k, ()) if f not in used and ((dict(f[1])[k] > 0) == (v > 0))]
            lo, hi = self.bounds(k)
            b = hi if v > 0 else lo
            n = len(cand) + (b is not None)
            if n == 0:
                return False
            if best is None or n < best[0]:
                best = (n, k, v, cand, b)
        n, k, v, cand, b = best
        if b is not None:
            nd = dict(d)
            del nd[k]
            if self._prove(c + v * b, nd, strict, depth - 1, used):
                return True
        for f in cand:
            fc, items, fs = f
            fv = dict(items)[k]
            lam = Fraction(v) / Fraction(fv) if not isinstance(v, float) and not isinstance(fv, float) else v / fv
            if isinstance(lam, Fraction) and lam.denominator == 1:
                lam = int(lam)
            nd = dict(d)
            for kk, vv in items:
                nv = nd.get(kk, 0) - lam * vv
                if nv == 0:
                    nd.pop(kk, None)
                else:
                    nd[kk] = nv
            if len(nd) > len(d) + 2:
                continue
            if self._prove(c - lam * fc, nd, strict and not fs, depth - 1, used | {f}):
                return True
        return False

    def le(self, a, b, strict=False):
        ca, da = lin(a)
        cb, db = lin(b)
        d = dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) - v
        return self.prove_le(ca - cb, d, strict)

    def lt(self, a, b, isint=True):
        if isint:
            return self.le(add(a, C(1)), b)
        return self.le(a, b, True)

    def eq(self, a, b):
        return a is b or (self.le(a, b) and self.le(b, a))

    def ne(self, a, b):
        ca, da = lin(a)
        cb, db = lin(b)
        c = ca - cb
        d = dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if not d:
            return c != 0
        items = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
        if items[0][1] < 0:
            c, items = -c, tuple((k, -v) for k, v in items)
        if (c, items) in self.diseq:
            return True
        # neighbour displacement is never (0): handled by the caller for pairs
        dd = dict(items)
        return self.prove_le(c, dd, True, 4) or self.prove_le(-c, {k: -v for k, v in items}, True, 4)

    def keyset(self):
        return set(self.ineq.values()), set(self.diseq.items())

    @staticmethod
    def meet(fs):
        """facts common to all (syntactic intersection, weakest constants)"""
        f0 = fs[0]
        r = Facts(f0.env)
        for key, v in f0.ineq.items():
            w = v
            ok = True
            for g in fs[1:]:
                o = g.ineq.get(key)
                if o is None:
                    # try to prove
                    if not g.prove_le(v[0], dict(v[1]), v[2], 3):
                        ok = False
                        break
                elif o[0] < w[0]:
                    w = o
            if ok:
                r.ineq[key] = w
                for k, _ in w[1]:
                    r.byatom.setdefault(k, []).append(w)
        for key, v in f0.diseq.items():
            if all(key in g.diseq for g in fs[1:]):
                r.diseq[key] = v
        return r
