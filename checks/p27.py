"""Every terrain attribute (TA_* functions and the surface area) is interpreted with all callees inlined, once for each of the
256 sets of present neighbours, and the value stored for the generic cell is put in normal form as a rational function (with
roots and opaque functions) of the nine elevations of its window, the vertical scale factor and the two cell lengths.  On the
normal form: adding an unknown to every elevation changes neither the value nor any comparison that leads to it; the value
equals the one for elevations multiplied by the scale factor and a factor of one; stretching elevations and cell lengths
together changes a slope or aspect not at all, a curvature by the inverse and an area by the square; on a tilted plane, with
unequal cell lengths, a slope is the gradient, the aspect is the azimuth of its downhill direction in [0,360), the surface
area of a cell is the area of the tilted cell; on a quadratic surface with square cells the curvatures are those of the surface."""
from common import *
import math
import rat

RULE = __doc__
OFFS = [(-1, -1), (0, -1), (1, -1), (-1, 0), (1, 0), (-1, 1), (0, 1), (1, 1)]
DEG = 180 / math.pi


def const_of(X):
    c, d = lin(X)
    return int(c) if c == int(c) else None


class E27(Engine):
    """NoData and grid-limit tests of neighbours are settled by the scenario"""
    mask = 255

    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.cmps = {}
        self.elev = None

    def present(self, o):
        return o not in OFFS or bool(self.mask >> OFFS.index(o) & 1)

    def iselev(self, t):
        return t.k == 'rd' and len(t.a) == 3 and rastof(t.a[0]) is self.elev

    def cmp(self, op, a, b, ii):
        if op in ('==', '!='):
            for p, q in ((a, b), (b, a)):
                if self.iselev(p) and (q.k == 'fv' and q.a[1] == 'no_data' or q.k == 'ld' and q.a[0].k == 'fld' and q.a[0].a[1] == 'no_data'):
                    r = not self.present((const_of(p.a[1]), const_of(p.a[2])))
                    return C(r == (op == '=='))
        t = Engine.cmp(self, op, a, b, ii)
        if not isc(t):
            for x in (a, b):
                if self.mentions(x):
                    self.cmps[(a, b)] = op
                    break
        return t

    def arith(self, e, op, a, b, st):
        if op == '/' and isc(a) and a.a[0] == 0 and not isc(b):
            return C(0)
        return Engine.arith(self, e, op, a, b, st)

    memo = None

    def mentions(self, t):
        m = self.memo
        if m is None:
            m = self.memo = {}
        if t in m:
            return m[t]
        r = self.iselev(t) or any(self.mentions(x) for x in flat(t.a))
        m[t] = r
        return r

    def unrollable(self, x, c, st):
        self.quiet += 1
        try:
            r = self.ev(c, st.copy())
        finally:
            self.quiet -= 1
        return len(r) == 1 and isc(r[0][1])

    def hook(self, e, s, qn, n, o, a, want):
        if qn == ARR2 + '::inGrid' and o is self.elev:
            v = [self.val(s, x) for x in a]
            if len(v) == 2:
                return [self.ret(e, s, C(self.present((const_of(v[0]), const_of(v[1])))), want)]
        return None


def flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def rastof(w):
    while w.k in ('ct', 'ld'):
        w = w.a[0]
    return w


class Window:
    """normal forms of the terms of one function"""

    def __init__(self, eng, f):
        self.eng = eng
        self.F = rat.Field()
        self.V = rat.var

    def of(self, t, z, s, X, Y, at):
        F = self.F
        x0, y0 = at
        A = None

        def leaf(t):
            if self.eng.iselev(t):
                o = sub(t.a[1], x0), sub(t.a[2], y0)
                if all(isc(q) for q in o):
                    return z((int(o[0].a[0]), int(o[1].a[0])))
                return None
            if t.k == 'ld' and t.a[0] in self.scale:
                return s
            if t.k == 'fnv' and t.a[0] in ('getCellLengthX', 'getCellLengthY', 'getCellArea'):
                return {'getCellLengthX': X, 'getCellLengthY': Y, 'getCellArea': F.mul(X, Y)}[t.a[0]]
            return None
        return F.of(t, leaf)


def kind(n):
    for k in ('slope', 'aspect', 'profile', 'planform', 'curvature', 'surface'):
        if k in n:
            return k
    return None


def one(c, u, f):
    """the elevations-based attributes"""
    n = short(f['qn'])
    k = kind(n)
    reports = {}
    stats = [0, 0, 0]
    for mask in range(256):
        if k == 'surface' and bin(mask).count('1') not in (0, 1, 7, 8):
            continue
        pol = Policy()
        pol.maxstates = 64
        pol.unroll = 9
        vals = {}

        def on(eng, ev, st):
            if ev.kind != 'wr' or ev.loc is None or ev.val is None or not st.loops:
                return
            if ev.loc.k == 'el' and ev.loc.a[0] is not eng.elev and len(ev.loc.a) == 3 or k == 'surface' and ev.loc.k == 'v':
                if ev.loc.k == 'v' and not eng.mentions(ev.val):
                    return
                if ev.loc.k == 'el' and ev.loc.a[0] not in eng.rasters:
                    return
                vals.setdefault((ev.loc, ev.val), []).append((ev, st.copy()))

        eng = E27(u, pol, on)
        eng.mask = mask

        def setup(eng, st, f, args):
            eng.scale = set()
            for p, a in zip(f['p'], args):
                t = bare(u.types[p['t']])
                if t.startswith(ARR2 + '<'):
                    if eng.elev is None:
                        eng.elev = a.a[0]
                elif not isint_t(u.types[p['t']]) and a.k in ('ld', 'objat'):
                    eng.scale.add(a.a[0])
        try:
            eng.analyse(f, setup)
        except Budget:
            raise units.ToolError('analysis budget exceeded in ' + f['qn'])
        w = Window(eng, f)
        w.scale = eng.scale
        try:
            judge(c, u, f, n, k, eng, w, vals, mask, reports, stats)
        except (OverflowError, ZeroDivisionError) as ex:
            raise units.ToolError('normal form of %s: %r' % (n, ex))
    for what, (detail, ev) in sorted(reports.items()):
        c.bad('attribute', '%s %s' % (n, what), '%s: %s' % (n, detail), evwhere(ev) if ev else where(u, f))
    if stats[0]:
        c.ok('attribute', '%s: %d stored values over all neighbour sets' % (n, stats[0]))
    elif not reports:
        c.bad('attribute', n + ' none', '%s: no value that depends on the elevations is stored' % n, where(u, f))
    for g, m in (('comparison', stats[1]), ('surface', stats[2])):
        if m:
            c.ok(g, '%s: %d' % (n, m))
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))


def judge(c, u, f, n, k, eng, w, vals, mask, reports, stats):
    F, V = w.F, w.V
    zv = lambda o: V('z%d,%d' % o)
    s, X, Y, t, lam = V('s'), V('X'), V('Y'), V('t'), V('l')
    one_ = rat.const(1)
    zT = lambda o: F.add(zv(o), t)
    zS = lambda o: F.mul(zv(o), s)
    zU = lambda o: F.mul(zv(o), lam)

    def bad(what, detail, ev):
        reports.setdefault(what, (detail, ev))

    for x, y in eng.cmps:
        if not (eng.mentions(x) or eng.mentions(y)):
            continue
        at = centre(eng, (x, y))
        if at is None or k == 'surface' and (nz(x) or nz(y)):
            continue
        d = sub(x, y)
        stats[1] += 1
        a = w.of(d, zv, s, X, Y, at)
        if not F.eq(a, w.of(d, zT, s, X, Y, at)):
            bad('choice-level', 'a decision depends on the absolute elevation', None)
        if k != 'surface' and not F.eq(a, w.of(d, zS, one_, X, Y, at)):
            bad('choice-zscale', 'a decision does not apply the vertical scale factor exactly once', None)
    L = X
    p, q, A, B, K, c0 = (V(v) for v in 'pqABKc')
    mul = lambda *a: _prod(F, a)
    num = rat.const

    def plane(o):
        return F.add(c0, F.add(mul(num(o[0]), X, p), mul(num(o[1]), Y, q)))

    def quad(o):
        i, j = num(o[0]), num(o[1])
        r = F.add(c0, F.add(mul(i, L, p), mul(j, L, q)))
        r = F.add(r, F.add(mul(i, i, L, L, A), mul(j, j, L, L, B)))
        return F.add(r, mul(i, j, L, L, K))

    g2 = F.add(mul(p, p), mul(q, q))
    area = mask == 255 and k == 'surface'
    best = None
    if k == 'surface' and vals:
        # the sum over the triangles of one cell
        m = max(nz(v) for _, v in vals)
        (loc, v), evs = next(((l, v), e) for (l, v), e in vals.items() if nz(v) == m)
        vals = {(loc, unlin(0, {a: q for a, q in lin(v)[1].items() if a.k == 'fnv'})): evs}
    for (loc, v), evs in vals.items():
        ev, st = evs[0]
        if not eng.mentions(v):
            if k in ('profile', 'planform') and mask == 255 and loc.k == 'el':
                for ev, st in evs:
                    if not (isc(v) and v.a[0] == 0):
                        bad('flat', 'a cell is given a value that does not depend on its surroundings', ev)
                    elif not levelcell(eng, w, st, quad, s, L, loc.a[1:]):
                        bad('flat', 'a cell is given curvature zero although its surroundings need not be level', ev)
            elif loc.k == 'el' and mask == 255:
                bad('constant', 'a cell with data is given a value that does not depend on its surroundings', ev)
            continue
        at = loc.a[1:] if loc.k == 'el' else centre(eng, (v,))
        if at is None:
            bad('centre', 'a value depends on elevations that are not around one cell', ev)
            continue
        if loc.k == 'el' and centre(eng, (v,), at) is None:
            bad('window', 'the value of a cell depends on elevations outside its 3x3 window', ev)
            continue
        stats[0] += 1
        r = w.of(v, zv, s, X, Y, at)
        if not F.eq(r, w.of(v, zT, s, X, Y, at)):
            bad('level', 'the value changes when a constant is added to all elevations', ev)
        if not F.eq(r, w.of(v, zS, one_, X, Y, at)):
            bad('zscale', 'the vertical scale factor does not multiply every elevation exactly once', ev)
        if eng.scale and not F.has(r, lambda x: x == 's'):
            bad('nozscale', 'the vertical scale factor has no effect', ev)
        if k != 'surface':
            ru = w.of(v, zU, s, F.mul(X, lam), F.mul(Y, lam), at)
            if k in ('profile', 'planform', 'curvature'):
                ru = F.mul(ru, lam)
            if not F.eq(r, ru):
                bad('units', 'the value does not have the units of a %s' % ('curvature' if k in ('profile', 'planform', 'curvature') else k), ev)
        if area:
            best = v, at, ev
        if mask != 255:
            continue
        if k == 'slope':
            x = w.of(v, plane, s, X, Y, at)
            want = mul(s, F.sqrt(g2))
            want2 = F.sqrt(mul(s, s, g2))
            at_ = [F.atom('atan', [want]), F.atom('atan', [want2])]
            if 'percent' in n:
                okv = [mul(num(100), want), mul(num(100), want2)]
            elif 'radian' in n:
                okv = at_
            elif 'degree' in n:
                okv = [mul(num(DEG), q_) for q_ in at_]
            else:
                okv = [want, want2]
            stats[2] += 1
            if not any(F.eq(x, o) for o in okv):
                bad('gradient', 'on a tilted plane the value is not the gradient (elevation differences along an axis are divided '
                    'by the wrong length, weighted wrongly or combined wrongly)', ev)
        if k == 'aspect':
            stats[2] += 1
            aspect(eng, w, v, evs, plane, s, X, Y, p, q, at, bad)
        if k == 'curvature':
            x = w.of(v, quad, s, L, L, at)
            stats[2] += 1
            if not F.eq(x, mul(num(-200), s, F.add(A, B))):
                bad('quadratic', 'on a quadratic surface the value is not -100 times the sum of the second derivatives', ev)
        if k in ('profile', 'planform'):
            x = w.of(v, quad, s, L, L, at)
            stats[2] += 1
            if k == 'profile':
                top = F.add(F.add(mul(A, p, p), mul(B, q, q)), mul(K, p, q))
                kk = 200
            else:
                top = F.sub(F.add(mul(A, q, q), mul(B, p, p)), mul(K, p, q))
                kk = -200
            if not F.eq(F.mul(x, g2), mul(num(kk), s, top)):
                bad('quadratic', 'on a quadratic surface the value is not the second derivative %s the direction of the gradient' % (
                    'along' if k == 'profile' else 'across'), ev)
    if area and best:
        v, at, ev = best
        x = w.of(v, plane, s, X, Y, at)
        stats[2] += 1
        want = mul(X, X, Y, Y, F.add(num(1), mul(s, s, g2)))
        if not F.eq(mul(x, x), want):
            bad('plane', 'on a tilted plane the surface area found for a cell is not the area of the tilted cell', ev)


def nz(v, m=None):
    """number of root terms summed"""
    c, d = lin(v)
    return sum(abs(k) for a, k in d.items() if a.k == 'fnv')


def _prod(F, a):
    r = a[0]
    for x in a[1:]:
        r = F.mul(r, x)
    return r


def centre(eng, ts, at=None):
    """the cell around which all elevations mentioned lie"""
    xs = set()

    def rec(t, seen):
        if t in seen:
            return
        seen.add(t)
        if eng.iselev(t):
            xs.add((t.a[1], t.a[2]))
            return
        for x in flat(t.a):
            rec(x, seen)
    seen = set()
    for t in ts:
        rec(t, seen)
    if at is None:
        ax, ay = set(), set()
        for x, y in xs:
            ax.add(sub(x, C(const_of(x) or 0)))
            ay.add(sub(y, C(const_of(y) or 0)))
        if len(ax) != 1 or len(ay) != 1:
            return None
        at = (ax.pop(), ay.pop())
    for x, y in xs:
        for d in (sub(x, at[0]), sub(y, at[1])):
            if not isc(d) or abs(d.a[0]) > 1:
                return None
    return at


def levelcell(eng, w, st, quad, s, L, at):
    """do the comparisons known to hold with equality say that p = q = 0 ?"""
    F = w.F
    g2 = F.add(F.mul(w.V('p'), w.V('p')), F.mul(w.V('q'), w.V('q')))
    zero = set()
    for x, y in eng.cmps:
        if centre(eng, (x, y), at) is None:
            continue
        for a, b in ((x, y), (y, x)):
            if st.facts.le(a, b):
                d = w.of(sub(a, b), quad, s, L, L, at)
                k = F.ratio(d, F.mul(F.mul(w.V('s'), w.V('s')), g2)) if d.n else None
                if k is not None and k > 0:
                    return True
        if not st.facts.eq(x, y):
            continue
        d = w.of(sub(x, y), quad, s, L, L, at)
        for v in 'pq':
            if d.n and all(any(a == v for a, _ in m) and not any(a in ('A', 'B', 'K', 'c', 'p', 'q') and a != v for a, _ in m) for m in d.n):
                zero.add(v)
    return zero == {'p', 'q'}


def aspect(eng, w, v, evs, plane, s, X, Y, p, q, at, bad):
    F = w.F
    x = w.of(v, plane, s, X, Y, at)
    minus = lambda r: F.mul(rat.const(-1), r)
    # the angle of the downhill direction, counter-clockwise from east
    want = None
    for i, (nm, args) in enumerate(list(F.atoms)):
        if nm != 'atan2' or len(args) != 2 or not F.has(x, lambda _: False) and False:
            continue
        k1, k2 = F.ratio(args[0], F.mul(s, q)), F.ratio(args[1], minus(F.mul(s, p)))
        k3, k4 = F.ratio(args[0], q), F.ratio(args[1], minus(p))
        if k1 is not None and k1 == k2 and k1 > 0 or k3 is not None and k3 == k4 and k3 > 0 or \
                k1 is not None and k2 is not None and abs(k1 - k2) < 1e-9 * abs(k1) and k1 > 0:
            want = rat.var(('~', i))
            if F.eq(x, F.sub(rat.const(90), F.mul(rat.const(DEG), want))) or \
                    F.eq(x, F.sub(rat.const(450), F.mul(rat.const(DEG), want))):
                break
            want = None
    for ev, st in evs:
        if want is None:
            bad('azimuth', 'on a tilted plane the value is not the azimuth of the downhill direction', ev)
            continue
        st = st.copy()
        for a in atoms(v):
            if a.k == 'fnv' and a.a[0] == 'atan2':
                eng._cmp(st, '<=', a, C(math.pi), False)
                eng._cmp(st, '>=', a, C(-math.pi), False)
        if not (st.facts.le(C(-1e-9), v) and st.facts.le(v, C(360 + 1e-9))):
            bad('range', 'the aspect is not confined to 0 to 360 degrees', ev)


def atoms(v):
    return list(lin(v)[1])


def indices(c, u, f):
    """SPI and CTI: accumulation per cell area"""
    n = short(f['qn'])
    vals = []

    def on(eng, ev, st):
        if ev.kind == 'wr' and ev.loc is not None and ev.loc.k == 'el' and len(ev.loc.a) == 3 and ev.val is not None and ev.loc.a[0] in eng.rasters:
            vals.append((ev, ev.val))
    eng = Engine(u, Policy(), on)
    eng.analyse(f)
    F = rat.Field()
    acc, slope, A, mu = (rat.var(x) for x in ('acc', 'slope', 'A', 'mu'))
    ps = [p['n'] for p in f['p']]
    n_ok = 0
    for ev, v in vals:
        if v.k == 'ld':
            continue

        def val(acc, A):
            def leaf(t):
                if t.k == 'rd' and len(t.a) == 3:
                    R = rastof(t.a[0])
                    i = [j for j, a in enumerate(eng.args0) if a is R] if hasattr(eng, 'args0') else []
                    nm = str(R)
                    return acc if nm.split('@')[0].endswith(ps[0]) or nm == ps[0] else slope
                if t.k == 'fnv' and t.a[0] == 'getCellArea':
                    return A
                if t.k == 'fnv' and t.a[0] in ('getCellLengthX', 'getCellLengthY'):
                    return F.sqrt(A)
                return None
            return F.of(v, leaf)
        a = val(acc, A)
        b = val(F.mul(acc, mu), F.mul(A, mu))
        if not F.has(a, lambda x: x in ('acc', 'slope')):
            continue
        if not F.eq(a, b) or not F.has(a, lambda x: x == 'A'):
            c.bad('index', n + ' area', '%s: flow accumulation is not taken per unit cell area' % n, evwhere(ev))
        if not F.has(a, lambda x: x == 'slope') or not F.has(a, lambda x: x == 'acc'):
            c.bad('index', n + ' inputs', '%s: the index does not depend on both the accumulation and the slope' % n, evwhere(ev))
        n_ok += 1
    c.ok('index', n) if n_ok else c.bad('index', n + ' none', '%s: no index is stored' % n, where(u, f))
    c.fn(f['qn'])


def lengths(c, u):
    """the cell lengths are the magnitudes of the pixel sizes in the geotransform"""
    want = {'getCellLengthX': (1,), 'getCellLengthY': (5,), 'getCellArea': (1, 5)}
    done = set()
    for f in u.fns.values():
        n = f['qn'].rsplit('::', 1)[-1]
        if f['qn'].rsplit('::', 1)[0] != ARR2 or n not in want or not f.get('body') or n in done:
            continue
        done.add(n)
        F = rat.Field()
        eng = Engine(u, Policy())
        outs = [o for o in eng.analyse(f) if o.k == 'ret']
        good = bool(outs)
        for o in outs:
            def leaf(t):
                if t.k == 'rd' and len(t.a) == 2 and isc(t.a[1]) and rastof(t.a[0]).k in ('fld', 'fv') and rastof(t.a[0]).a[1] == 'geotransform':
                    return rat.var('g%d' % t.a[1].a[0])
                if t.k == 'fnv' and t.a[0] in want:
                    r = rat.const(1)
                    for i in want[t.a[0]]:
                        r = F.mul(r, F.sqrt(F.mul(rat.var('g%d' % i), rat.var('g%d' % i))))
                    return r
                return None
            r = F.of(o.v, leaf)
            e = rat.const(1)
            for i in want[n]:
                e = F.mul(e, rat.var('g%d' % i))
            pos = F.has(r, lambda x: False) or all(isinstance(a, tuple) for m in r.n for a, _ in m)
            good &= pos and F.eq(F.mul(r, r), F.mul(e, e))
        if good:
            c.ok('length', n)
        else:
            c.bad('length', n, '%s is not the magnitude of the pixel size in the geotransform entry %s' % (n, ' times '.join('[%d]' % i for i in want[n])), where(u, f))
        c.fn(f['qn'])


def run(c, tier):
    us = units.load(units.harness('misc'))
    u = us[0]
    jobs = []
    for f in roots(u):
        n = short(f['qn'])
        if n.startswith('TA_') and sum(1 for p in f['p'] if bare(u.types[p['t']]).startswith(ARR2 + '<')) == 3:
            jobs.append(('i', f['fn']))
        elif n.startswith('TA_') or n == 'dem_surface_area':
            jobs.append(('a', f['fn']))
    jobs.append(('l', None))
    pmap(c, jobs, lambda c, j: (indices(c, u, u.fns[j[1]]) if j[0] == 'i' else lengths(c, u) if j[0] == 'l' else one(c, u, u.fns[j[1]])) and None)
    c.need('attribute', 9)
    c.need('index', 2)
    c.need('length', 3)
    c.assume('curvatures are computed for square cells (the library warns when cells are not square)')
    c.assume('the vertical scale factor is positive')
