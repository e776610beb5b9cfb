"""Every public algorithm is interpreted with symbolic raster size and content (repository callees inlined, loops as one
generic iteration with inductively checked bounds).  At each element access of a raster the path facts must entail
0<=x<width and 0<=y<height, for a flat access 0<=i<width*height.  Coordinates that a value carries (a queue or vector
element, a member of a cell record, an argument, an element of an index raster) are taken as valid cells at the use and
are an obligation where a cell record or a flat index is put into a container."""
from common import *

RULE = __doc__
DATA = {'fv', 'rd', 'ld', 'fnv', 'deref', 'trunc'}


class Pol(Policy):
    pass


class E3(Engine):
    """remembers which location a generic loop value stands for"""

    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.symof = {}

    def havoc(self, st, loc, name='h'):
        Engine.havoc(self, st, loc, name)
        v = st.mem.get(loc)
        if v is not None and v.k == 'sym':
            self.symof[v] = loc


def atoms(t):
    return lin(t)[1]


class Root:
    def __init__(self, c, u, f):
        self.c, self.u, self.f = c, u, f
        self.writes = {}
        self.pending = []
        self.flagread = set()
        self.inner = []
        self.unguarded = []

    # ---- is the value a coordinate/flat index that some other value carries?
    def carried(self, eng, a, need):
        if a.k in DATA:
            return True
        if a.k == 'sym':
            if a.a[0] in ('item', 'size', 'new') or str(a.a[0]).startswith('it'):
                return True
            if a.a[0] in ('front', 'top', 'back', 'x', 'c', 'st', 'phi', 'GetRandom', 'operator[]'):
                return True
            l = eng.symof.get(a)
            if l is not None:
                need.add((a, l))
                return True
        return False

    def ingrid(self, eng, st, loc):
        R, x, y = loc.a[0], loc.a[1], loc.a[2]
        W = eng.load(st, mk('fld', R, 'view_width'))
        H = eng.load(st, mk('fld', R, 'view_height'))
        return self.inside(eng, st, x, y, W, H)

    def inside(self, eng, st, x, y, W, H):
        f = st.facts

        def proved(f):
            return f.le(C(0), x) and f.lt(x, W) and f.le(C(0), y) and f.lt(y, H)
        if proved(f):
            return 'proved', set()
        need = set()
        if x.k == 'ix' and y.k == 'iy' and x.a == y.a:
            i = x.a[1]
            if f.le(C(0), i) and f.lt(i, mul(W, H)):
                return 'proved', set()
            if self.carried(eng, i, need):
                return 'carried', need
            return 'FAIL', set()
        g = f.copy()
        n = 0
        for t, B in ((x, W), (y, H)):
            for a in atoms(t):
                if a.k == 'tb':
                    continue
                ok = False
                if a.k in ('ix', 'iy'):
                    i = a.a[1]
                    ok = (f.le(C(0), i) and f.lt(i, mul(W, H))) or self.carried(eng, i, need)
                else:
                    ok = self.carried(eng, a, need)
                if ok:
                    g.add_le(0, {a: -1})
                    cb, db = lin(B)
                    dd = {k: -v for k, v in db.items()}
                    dd[a] = dd.get(a, 0) + 1
                    g.add_le(1 - cb, dd)
                    n += 1
        if n:
            g.tighten()
            if proved(g):
                return 'carried', need
        if self.interior(st, x, y):
            return 'interior', set()
        if self.props(st, x, y):
            return 'contract', set()
        if self.dirraster(st, x, y):
            return 'contract', set()
        return 'FAIL', set()

    def split(self, x, y):
        """(x,y) = cell + (dx[n],dy[n]) -> [(cx, cy, n)]"""
        r = []
        for a, v in atoms(x).items():
            if a.k == 'tb' and v == 1 and a.a[0] == DX:
                for b, w in atoms(y).items():
                    if b.k == 'tb' and w == 1 and b.a[0] == DY and b.a[1] is a.a[1]:
                        r.append((sub(x, a), sub(y, b), a.a[1]))
        return r

    def unmarked(self, st, x, y):
        """the path established that the (boolean) mark of cell (x,y) was not set"""
        for (c, items, strict) in st.facts.ineq.values():
            if len(items) == 1 and items[0][1] > 0 and c >= 0:
                a = items[0][0]
                if a in self.flagread and len(a.a) == 3 and a.a[1] is x and a.a[2] is y:
                    return True
        return False

    def interior(self, st, x, y):
        """a step away from a cell that is not on the border: one whose visited mark was clear although every border
        cell is marked before the flood starts, or one taken from a queue into which only such cells were put"""
        for cx, cy, n in self.split(x, y):
            if cx.k == 'fv' and cy.k == 'fv' and cx.a[0] is cy.a[0] and cx.a[1:] == ('x',) and cy.a[1:] == ('y',):
                v = cx.a[0]
                if v.k == 'rd' and len(v.a) == 2 and v.a[1].k == 'c' and v.a[1].a[0] == 'front':
                    return True
            if any('front' in show(a) for a in atoms(cx)) and self.unmarked(st, cx, cy):
                return True
        return False

    def props(self, st, x, y):
        """a stored positive share of a flow-proportion raster names a neighbour inside the grid (P25)"""
        for s in self.split(x, y):
            if self.props1(st, s):
                self.c.assume('a positive share stored in a flow-proportion raster names a neighbour inside the grid (decided by P25)')
                return True
        return False

    def props1(self, st, s):
        for (c, items, strict) in st.facts.ineq.values():
            if len(items) == 1 and items[0][1] < 0 and (c > 0 or (c == 0 and strict)):
                a = items[0][0]
                if a.k == 'rd' and len(a.a) == 4 and a.a[3] is s[2] and a.a[1] is s[0] and a.a[2] is s[1]:
                    return True
        return False

    def dirraster(self, st, x, y):
        if '::dephier::' not in self.f['qn']:
            return False
        for s in self.split(x, y):
            n = s[2]
            if not (n.k == 'rd' and len(n.a) == 3 and n.a[1] is s[0] and n.a[2] is s[1]):
                continue
            self.c.assume('flow directions handed to the depression-hierarchy functions point to cells of the grid (they are made by GetDepressionHierarchy)')
            return True
        return False

    def __call__(self, eng, ev, st):
        if ev.kind == 'wr' and ev.loc is not None and ev.loc.k == 'v' and ev.val is not None:
            self.writes.setdefault(ev.loc, []).append((ev.val, st))
        if ev.kind == 'elem' and len(ev.loc.a) >= 3 and ev.loc.a[0] in eng.rasters:
            if bare(eng.ty(ev.node)) == 'bool':
                self.flagread.add(eng.load(st, ev.loc))
            r, need = self.ingrid(eng, st, ev.loc)
            self.report(ev, r, need, 'access to %s(%s,%s)' % tuple(show(z) for z in ev.loc.a[:3]), 'access')
        if ev.kind == 'push':
            self.push(eng, ev, st)

    def report(self, ev, r, need, what, grp):
        k = (short(ev.stack[-1][0]), show_loc(ev))
        if r == 'FAIL':
            key = '%s %s %s' % (short(self.f['qn']), k[0], what.split('#')[0][:60])
            import re
            key = re.sub(r'#\d+', '', key)
            self.c.bad(grp, key, '%s in %s is not established to be inside the raster' % (re.sub(r'#\d+', '', what), short(ev.stack[-1][0])), evwhere(ev))
            return
        if r == 'interior':
            self.inner.append((ev, what, grp))
        if need:
            self.pending.append((ev, need, what, grp))
        self.c.ok(grp, '%s:%s' % (k[0], ev.line))

    def push(self, eng, ev, st):
        """a cell record queued must denote a cell of the grid"""
        t = eng.ty(ev.node['o'])
        vals = ev.args
        x = y = None
        if 'GridCell' in t:
            if len(vals) >= 2:
                x, y = eng.val(st, vals[0]), eng.val(st, vals[1])
            elif len(vals) == 1 and vals[0].k == 'objat':
                l = vals[0].a[0]
                x, y = eng.load(st, mk('fld', l, 'x')), eng.load(st, mk('fld', l, 'y'))
                if x.k == 'fv' and x.a[0].k == 'mkobj':
                    x, y = x.a[0].a[1], x.a[0].a[2]
        elif len(vals) == 1 and any(t_ in t for t_ in ('int', 'long', 'short')):
            v = eng.val(st, vals[0])
            v = strip_ucast(v) if isinstance(v, T) else v
            if v.k == 'idx':
                x, y = v.a[1], v.a[2]
        if x is None:
            return
        x, y = strip_ucast(x), strip_ucast(y)
        if isc(x) and isc(y):
            return      # a marker, not a cell
        if bare(t).startswith('std::queue'):
            v = x.a[0] if x.k == 'fv' else None
            again = v is not None and v.k == 'rd' and len(v.a) == 2 and v.a[1].k == 'c' and v.a[1].a[0] == 'front'
            if not (again or self.unmarked(st, x, y)):
                self.unguarded.append(ev)
        r, need = self.inside(eng, st, x, y, eng.W, eng.H)
        if r == 'FAIL':
            for R in eng.rasters:
                r, need = self.inside(eng, st, x, y, eng.load(st, mk('fld', R, 'view_width')), eng.load(st, mk('fld', R, 'view_height')))
                if r != 'FAIL':
                    break
        self.report(ev, r, need, 'cell (%s,%s) queued' % (show(x), show(y)), 'queued')

    def finish(self, eng):
        if self.inner:
            self.c.assume('where cells are stepped away from without a bounds test, every border cell was marked before the flood starts (decided by P14)')
            if self.unguarded:
                for ev, what, grp in self.inner:
                    self.report(ev, 'FAIL', set(), what + ' (a cell whose mark was not tested is queued at line %d)' % self.unguarded[0].line, grp)
        for ev, need, what, grp in self.pending:
            for a, l in need:
                if a.a[0].startswith('L:') and l.k == 'v':
                    for v, st in self.writes.get(l, []):
                        if v is a or isc(v):
                            continue
                        nd = set()
                        x = strip_ucast(v)
                        if x.k == 'idx':
                            r, _ = self.inside(eng, st, x.a[1], x.a[2], x.a[0], eng.H)
                            if r == 'FAIL':
                                self.bad_write(ev, l, v)
                            continue
                        if not self.carried(eng, x, nd):
                            self.bad_write(ev, l, v)

    def bad_write(self, ev, l, v):
        import re
        self.report(ev, 'FAIL', set(), 'access through %s, which is set to %s,' % (show(l), show(v)), 'access')


def show_loc(ev):
    return ''


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat'))

    each_root(c, us[1:], one)
    c.need('access', 200)
    c.assume('a coordinate carried by a queued cell record, an argument or an index raster denotes a cell of the grid; '
             'queueing sites are themselves checked')
    c.assume('rasters given together to one algorithm have the same dimensions, as each interface requires')


def one(c, u, f):
    seen = set()
    r = Root(c, u, f)
    e = E3(u, Pol(), r)
    e.listeners.append(lambda eng, ev, st: seen.update(x[0] for x in ev.stack))
    try:
        e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    r.finish(e)
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))
    return seen
