"""Every place where a flooding traversal queues a neighbour of the cell it has just taken from a queue is an obligation
(callees inlined, one generic iteration of every loop): the facts on the path must include that the cell's mark in some
raster M was clear, and when the iteration that queued the cell ends, the value held by M at that cell must contradict
that clear condition (or be copied from the mark of the cell just taken, which was marked when it was queued).  Every seed
queued before the flood starts must get a contradicting mark in the same rasters, unless every cell taken from the queue is
shown to be marked before its neighbours are looked at."""
import re
from common import *

RULE = __doc__
FILES = ('/depressions/', 'misc_methods.hpp', '/parallel_priority_flood/')
NOT = ('fill_spill_merge',)     # passes water down known directions (no flood)


class E14(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.symof = {}
        self.contof = {}

    def content(self, st, loc):
        v = Engine.content(self, st, loc)
        self.contof[v] = loc
        return v

    def havoc(self, st, loc, name='h'):
        Engine.havoc(self, st, loc, name)
        v = st.mem.get(loc)
        if v is not None and v.k == 'sym':
            self.symof[v] = loc


def queueish(t):
    t = bare(t)
    return 'queue' in t or '_pq' in t or 'radix_heap' in t or t.startswith('std::stack')


def popped(v):
    """(the container version, which end) if the coordinate was taken from a queue"""
    while v.k in ('fv', 'ix', 'iy', 'ucast', 'idx', 'trunc'):
        v = v.a[1] if v.k in ('ix', 'iy') else v.a[0]
    if v.k == 'rd' and len(v.a) == 2 and v.a[1].k == 'c' and v.a[1].a[0] in ('front', 'top', 'back', 'top_value', 'top_key'):
        return v
    if v.k == 'sym' and v.a[0] in ('front', 'top', 'back', 'top_value', 'top_key'):
        return v
    return None


class Root:
    def __init__(self, c, u, f):
        self.c, self.u, self.f = c, u, f
        self.termof = {}
        self.flood = {}         # site -> list of verdicts
        self.marks = {}         # raster -> [clear conditions]
        self.seeds = []
        self.taken = {}

    def inscope(self, ev):
        return any(x in ev.file for x in FILES) and not any(x in ev.file for x in NOT)

    def __call__(self, eng, ev, st):
        if ev.kind == 'elem' and len(ev.loc.a) >= 3:
            self.termof[eng.load(st, ev.loc)] = ev.loc
        if ev.kind == 'pop' or (ev.kind == 'call' and str(ev.fn).split('::')[-1] in ('pop', 'pop_front', 'pop_back')):
            st.tags['popped'] = 1
            st.tags['poploops'] = len(st.loops)
        if ev.kind == 'push' and queueish(eng.ty(ev.node['o'])) and self.inscope(ev):
            self.push(eng, ev, st)

    def coords(self, eng, ev, st):
        t = eng.ty(ev.node['o'])
        a = ev.args
        x = y = None
        vals = [eng.val(st, z) for z in a]
        if 'GridCell' in t:
            if len(a) >= 2:
                x, y = vals[0], vals[1]
            elif len(a) == 1 and a[0].k == 'objat':
                l = a[0].a[0]
                x, y = eng.load(st, mk('fld', l, 'x')), eng.load(st, mk('fld', l, 'y'))
            if x is not None and x.k == 'fv' and x.a[0].k == 'mkobj':
                x, y = x.a[0].a[1], x.a[0].a[2]
        else:
            for v in vals:
                v = strip_ucast(v) if isinstance(v, T) else v
                while v.k == 'trunc':
                    v = v.a[0]
                if v.k == 'idx':
                    x, y = v.a[1], v.a[2]
                elif v.k == 'lin' or v.k == 'sym' or v.k == 'rd':
                    w = eng.W
                    x, y = eng_ix(eng, v), eng_iy(eng, v)
        if x is None:
            return None
        return strip_ucast(x), strip_ucast(y)

    def push(self, eng, ev, st):
        xy = self.coords(eng, ev, st)
        site = (short(ev.stack[-1][0]), ev.line)
        if xy is None:
            if DEBUG:
                print('NOXY', site, [show(eng.val(st, z)) for z in ev.args])
            return
        x, y = xy
        again = popped(x) is not None and popped(y) is not None
        clear = self.clear(st, x, y)
        kind = 'again' if again else ('flood' if st.tags.get('popped') else 'seed')
        st.tags['pend'] = st.tags.get('pend', ()) + ((site, x, y, kind, tuple(clear), ev, st.facts.copy(), len(st.loops) - st.tags.get('poploops', 0)),)

    def clear(self, st, x, y):
        """conditions established on this path about what some raster held at (x,y): [(raster, term, c, k, strict)]"""
        r = []
        for (c, items, strict) in st.facts.ineq.values():
            if len(items) == 1:
                a, k = items[0]
                l = self.termof.get(a)
                if l is not None and l.a[1] is x and l.a[2] is y:
                    r.append((l.a[0], a, c, k, strict))
        for q in list(r):       # both <= K and >= K
            if q[3] == 1 and (q[0], q[1], -q[2], -1, False) in r:
                r.append((q[0], q[1], -q[2], 0, False))
        return r

    def contradicts(self, f, cond, m):
        R, a, c, k, strict = cond
        if m is a:
            return False
        if m.k == 'sym' and (m.a[0] == 'size' or 'size' in show(self.eng.symof.get(m, m))):       # the next unused label
            return True
        if k == 0:
            return f.ne(m, C(c))
        b = C(-c / k) if (-c) % k else C(-c // k)
        if k > 0:
            return f.le(b, m) if strict else f.lt(b, m)
        return f.le(m, b) if strict else f.lt(m, b)

    def inherited(self, m, R):
        """the mark of the cell that was taken from the queue"""
        l = self.termof.get(m)
        return l is not None and l.a[0] is R and popped(l.a[1]) is not None and popped(l.a[2]) is not None

    def source(self, eng, x):
        """the container from which the cell was taken whose neighbour is queued"""
        for a in lin(x)[1]:
            p = popped(a)
            if p is not None and p.k == 'rd':
                return eng.contof.get(p.a[0])
        return None

    def atpop(self, eng, st, f0, x, y, cond):
        """the cell just taken was itself marked by then"""
        R = cond[0]
        for a, v in lin(x)[1].items():
            if a.k == 'tb' and v == 1 and len(a.a) == 2:
                for b, w in lin(y)[1].items():
                    if b.k == 'tb' and w == 1 and b.a[1] is a.a[1]:
                        cx, cy = sub(x, a), sub(y, b)
                        ms = [e.val for e in st.events() if e.kind == 'wr' and e.val is not None and e.loc.k == 'el' and e.loc.a[0] is R and e.loc.a[1:3] == (cx, cy)]
                        ms += [t for t, l in self.termof.items() if l.a[0] is R and l.a[1:3] == (cx, cy)]
                        if any(self.contradicts(f0, cond, m) for m in ms):
                            return True
        return False

    def loop_end(self, eng, node, entry, back, ex, oth):
        for o in list(back) + list(ex) + list(oth):
            st = o if isinstance(o, State) else o.st
            if not isinstance(o, State) and o.k == 'throw':
                continue
            p = st.tags.get('pend', ())
            if not p:
                continue
            for site, x, y, kind, clear, ev, f0, deep in p:
                if kind == 'flood':
                    good = []
                    for cond in clear:
                        R = cond[0]
                        ms = [eng.load(st, mk('el', R, x, y))] + [e.val for e in st.events() if e.kind == 'wr' and e.val is not None and
                                                                  e.loc.k == 'el' and e.loc.a[0] is R and e.loc.a[1:3] == (x, y)][-1:]
                        if any(self.contradicts(st.facts, cond, m) or self.inherited(m, R) for m in ms):
                            good.append(cond)
                            self.marks.setdefault(R, set()).add(cond[2:])
                    self.flood.setdefault(site, []).append((bool(good), bool(clear), ev))
                    q = self.source(eng, x)
                    for R in {cond[0] for cond in good}:
                        self.taken[R, q] = self.taken.get((R, q), True) and any(self.atpop(eng, st, f0, x, y, cond) for cond in good if cond[0] is R)
                elif kind == 'seed':
                    ws = {}
                    for e in st.events():
                        if e.kind == 'wr' and e.val is not None and e.loc.k == 'el' and e.loc.a[1:] == (x, y):
                            ws[e.loc.a[0]] = e.val
                    self.seeds.append((site, x, y, ws, ev, st.facts))
                elif len(ev.args) and deep > 0:
                    # inside a loop over the neighbours: a local flag must let it happen once
                    once = False
                    for (c, items, strict) in f0.ineq.values():
                        if len(items) == 1 and items[0][0] in eng.symof:
                            l = eng.symof[items[0][0]]
                            if l.k == 'v' and self.contradicts(st.facts, (None, items[0][0], c, items[0][1], strict), eng.load(st, l)):
                                once = True
                    left = not isinstance(o, State) and o.k not in ('n',) or o in ex or any(o is z for z in ex) or any(o is z for z in oth)
                    self.flood.setdefault(site, []).append((None if once or left else False, None, ev))
                else:
                    self.flood.setdefault(site, []).append((None, bool(clear), ev))
            st.tags['pend'] = ()

    def finish(self, eng):
        if DEBUG:
            print([(show(a), show(b) if b else None, v) for (a, b), v in self.taken.items()])
        n = short(self.f['qn'])
        for site, vs in self.flood.items():
            for good, clear, ev in vs:
                if good is None:
                    self.c.ok('requeue', '%s:%s' % site)
                elif good:
                    self.c.ok('queued', '%s:%s' % site)
                else:
                    why = 'no local flag lets it happen once' if clear is None else 'its mark is not set in the same step' if clear else 'no mark was tested'
                    self.c.bad('queued', '%s %s %s' % (n, site[0], why), '%s: a neighbour can be queued more than once: %s' % (n, why), evwhere(ev))
        for site, x, y, ws, ev, f in self.seeds:
            for R, conds in self.marks.items():
                v = ws.get(R)
                if self.taken.get((R, ev.loc)):
                    self.c.ok('seed marked when taken', '%s:%s' % site)
                elif v is not None and any(self.contradicts(f, (R, None) + cd, v) for cd in conds):
                    self.c.ok('seed', '%s:%s' % site)
                else:
                    self.c.bad('seed', '%s %s seed %s' % (n, site[0], show(R)), '%s: a cell queued before the flood starts is not marked in %s' % (n, show(R)), evwhere(ev))
        self.sides(eng, n)

    def sides(self, eng, n):
        """where the seeds are put line by line, the four lines must make up the whole border"""
        cover, at = set(), None
        W, H = eng.W, eng.H
        for site, x, y, ws, ev, f in self.seeds:
            for a, b, A, B, lo, hi in ((x, y, W, H, 'top', 'bottom'), (y, x, H, W, 'left', 'right')):
                side = lo if b is C(0) else hi if b is sub(B, C(1)) else None
                if side is None or not (isc(b) or b is sub(B, C(1))):
                    continue
                at = ev
                first = 0 if not f.le(C(1), a) else 1 if not f.le(C(2), a) else 2
                last = 1 if not f.lt(a, sub(A, C(1))) else 2 if not f.lt(a, sub(A, C(2))) else 3
                cover.add((side, first, last))
        if at is None:
            return
        s = {}
        for side, first, last in cover:
            o = s.get(side, (9, 9))
            s[side] = (min(o[0], first), min(o[1], last))
        full = {k for k, v in s.items() if v == (0, 1)}
        near = {k for k, v in s.items() if max(v[0], v[1] - 1) <= 1}
        good = near == {'top', 'bottom', 'left', 'right'} and ({'top', 'bottom'} <= full or {'left', 'right'} <= full)
        if good:
            self.c.ok('border', n)
        else:
            self.c.bad('border', '%s border' % n, '%s: the seeds do not make up the whole border of the raster (%s)' % (
                n, ', '.join('%s: from %d to the %s' % (k, v[0], {1: 'last', 2: 'last but one'}.get(v[1], 'some')) for k, v in sorted(s.items()))), evwhere(at))


DEBUG = False


def run(c, tier):
    us = units.load(units.harness('depr', 'dh', 'misc'))
    each_root(c, us, one, alone=False)
    c.need('queued', 15)
    c.need('seed', 10)


def one(c, u, f):
    r = Root(c, u, f)
    e = E14(u, Policy(), r)
    r.eng = e
    e.loop_end = r.loop_end
    try:
        e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    r.finish(e)
    if r.flood:
        c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))


def eng_ix(eng, v):
    return mk('ix', eng.W, v)


def eng_iy(eng, v):
    return mk('iy', eng.W, v)
