"""Every flow metric is interpreted (callees inlined, one generic iteration of each loop).  For the generic cell, on every
path: a NoData elevation gives exactly the NoData marker and no share; a share goes to a stored direction that, for every
value the direction variable can have there, is a compass step (in the eight-direction numbering of the proportions raster)
to a neighbour read on the path that remembered it, inside the grid and shown not to be NoData; the marker has-flow is
written exactly on the paths that store a share, directly or in a neighbour loop whose activity the path's facts settle; the
stored shares sum to one, as constants or because each share in a neighbour loop is added to a sum and later multiplied by
its reciprocal; and the raster is set to no-flow before."""
from common import *

RULE = __doc__
NODATA, NOFLOW, HASFLOW = -2, -1, 0
D8 = [(0, 0), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1)]
BOTH = DX, DY


class E25(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.symof = {}

    def havoc(self, st, loc, name='h'):
        Engine.havoc(self, st, loc, name)
        v = st.mem.get(loc)
        if v is not None and v.k == 'sym':
            self.symof[v] = loc


def ilist(w):
    while w.k == 'ct' or w.k == 'ilist' and len(w.a) == 1 and isinstance(w.a[0], T) and w.a[0].k == 'ilist':
        w = w.a[0]
    return w.a if w.k == 'ilist' else None


def evaluate(eng, t, env):
    """value of an integer term with some atoms known, or None"""
    if t in env:
        return env[t]
    if isc(t):
        return t.a[0]
    if t.k == 'lin':
        r = t.a[0]
        for a, k in t.a[1]:
            v = evaluate(eng, a, env)
            if v is None:
                return None
            r += k * v
        return r
    if t.k in ('ucast', 'trunc'):
        return evaluate(eng, t.a[0], env)
    if t.k == 'mul':
        r = 1
        for a in t.a:
            v = evaluate(eng, a, env)
            if v is None:
                return None
            r *= v
        return r
    if t.k in ('mod', 'idiv') and len(t.a) == 2:
        p, q = evaluate(eng, t.a[0], env), evaluate(eng, t.a[1], env)
        return None if p is None or not q or p < 0 or q < 0 else int(p) % int(q) if t.k == 'mod' else int(p) // int(q)
    if t.k == 'tb':
        n = evaluate(eng, t.a[1], env)
        tab = eng.table(t.a[0])
        return tab[int(n)] if n is not None and tab and 0 <= n < len(tab) else None
    if t.k == 'rd' and len(t.a) == 2:
        l = ilist(t.a[0])
        n = evaluate(eng, t.a[1], env)
        if l is not None and n is not None and 0 <= n < len(l):
            return evaluate(eng, l[int(n)], env)
    return None


def syms(t, r=None):
    r = set() if r is None else r
    if isinstance(t, T):
        if t.k == 'sym':
            r.add(t)
        for a in t.a:
            syms(a, r)
    elif isinstance(t, tuple):
        for a in t:
            syms(a, r)
    return r


class Loop:
    """what one neighbour loop does to one cell"""

    def __init__(self):
        self.stores = 0          # some iteration stores a share
        self.active = {}         # location -> [changed in this iteration?] per back path
        self.init = {}
        self.sum = None
        self.bad = []


class Root:
    def __init__(self, c, u, f):
        self.c, self.u, self.f = c, u, f
        self.P = self.E = None
        self.set = None
        self.pre = {}
        self.writes = {}     # variable -> [(value, facts, state)]
        self.loops = {}      # id of loop -> Loop
        self.cells = 0
        self.marker = False
        self.nd = None

    def setup(self, eng, st, f, args):
        for p, a in zip(f['p'], args):
            t = bare(self.u.types[p['t']])
            if t.startswith(ARR3 + '<') and self.P is None:
                self.P = a.a[0]
            elif t.startswith(ARR2 + '<') and self.E is None:
                self.E = a.a[0]

    def bad(self, ev, what, detail):
        self.c.bad('share', '%s %s' % (self.name(), what), '%s: %s' % (self.name(), detail), evwhere(ev) if ev else where(self.u, self.f))

    def name(self):
        return short(self.f['qn'])

    # ------------------------------------------------------------------ events
    def __call__(self, eng, ev, st):
        if ev.kind == 'loop':
            self.pre[id(ev.node)] = ev.info[0]
        if ev.loc is None:
            return
        if ev.kind in ('setall', 'assign') and ev.loc is self.P:
            v = ev.args[0] if ev.args else ev.val
            self.set = v
        if ev.kind != 'wr':
            return
        if ev.loc.k == 'v' and ev.val is not None:
            self.writes.setdefault(ev.loc, []).append((ev.val, st.facts.copy(), st.copy()))
        if ev.loc.k == 'el' and ev.loc.a[0] is self.P:
            if len(ev.loc.a) != 4:
                return self.bad(ev, 'flat', 'a proportion is stored by flat index, which the check cannot follow')
            if not st.loops:
                return self.bad(ev, 'outside', 'a proportion is stored outside the loop over cells')
            if self.set is None or not isc(self.set) or self.set.a[0] != NOFLOW:
                self.bad(ev, 'unset', 'proportions are stored before the raster has been set to no-flow')
            x, y, k = ev.loc.a[1:]
            if isc(k) and k.a[0] == 0:
                self.mark(eng, ev, st)
            else:
                self.share(eng, ev, st, x, y, strip_ucast(k))

    def nodata(self, eng, st, x, y):
        v = eng.load(st, mk('el', self.E, x, y))
        nd = eng.load(st, mk('fld', self.E, 'no_data'))
        return True if st.facts.eq(v, nd) else False if st.facts.ne(v, nd) else None

    def mark(self, eng, ev, st):
        x, y, k = ev.loc.a[1:]
        v = ev.val
        if v is None or not isc(v) or v.a[0] not in (NODATA, NOFLOW, HASFLOW):
            return self.bad(ev, 'marker', 'a cell is marked with a value other than no-flow, has-flow and NoData')
        n = self.nodata(eng, st, x, y)
        if (v.a[0] == NODATA) != (n is True):
            return self.bad(ev, 'nodata', 'the NoData marker does not follow the elevation: a cell is marked %s where its elevation is %s' % (
                {-2: 'NoData', -1: 'no-flow', 0: 'has-flow'}[v.a[0]], {True: 'NoData', False: 'not NoData', None: 'not known to be NoData'}[n]))
        self.marker |= v.a[0] == HASFLOW
        self.c.ok('marker', '%s:%s' % (self.name(), ev.line))

    # ---- candidate neighbours the facts of a state establish for a given n
    def candidates(self, eng, facts, st, x, y, env):
        r = set()
        W = eng.load(st, mk('fld', self.E, 'view_width'))
        H = eng.load(st, mk('fld', self.E, 'view_height'))
        nd = eng.load(st, mk('fld', self.E, 'no_data'))
        interior = facts.le(C(1), x) and facts.le(x, sub(W, C(2))) and facts.le(C(1), y) and facts.le(y, sub(H, C(2)))
        atoms = set()
        for (c, items, s) in facts.ineq.values():
            atoms.update(a for a, _ in items)
        for d in facts.diseq:
            atoms.update(a for a, _ in (d[1] if isinstance(d, tuple) else ()))
        for a in atoms:
            if a.k != 'rd' or len(a.a) != 3 or self.rastof(a.a[0]) is not self.E:
                continue
            X, Y = a.a[1], a.a[2]
            if X is x and Y is y:
                continue
            if not facts.ne(a, nd):
                continue
            ox, oy = evaluate(eng, sub(X, x), env), evaluate(eng, sub(Y, y), env)
            if ox is None or oy is None:
                continue
            if not (interior and abs(ox) <= 1 and abs(oy) <= 1 or
                    facts.le(C(0), X) and facts.lt(X, W) and facts.le(C(0), Y) and facts.lt(Y, H)):
                continue
            r.add((ox, oy))
        return r

    def rastof(self, w):
        while w.k in ('ct', 'ld'):
            w = w.a[0]
        return w

    def share(self, eng, ev, st, x, y, k):
        if self.nodata(eng, st, x, y) is not False:
            self.bad(ev, 'ndshare', 'a share is stored for a cell whose elevation is not shown to hold data')
        if ev.val is None:
            return self.bad(ev, 'value', 'a share of unknown value is stored')
        # a store that only rescales or clears a share already there needs no direction
        old = mk('rd', eng.content(st, ev.loc.a[0]), *ev.loc.a[1:]) if ev.old is None else ev.old
        if self.rescale(ev, old) is not None or isc(ev.val) and ev.val.a[0] == 0:
            return self.c.ok('share', '%s:%s rescaled' % (self.name(), ev.line))
        ss = syms(k) - {x, y}
        if len(ss) > 1:
            return self.bad(ev, 'index', 'the direction of a stored share depends on several variables')
        cases = []       # (environment, candidates)
        if not ss:
            v = evaluate(eng, k, {})
            # constant: which remembered value makes it so?
            for s, l in list(eng.symof.items()):
                if l in self.writes and l.k == 'v':
                    vals = [n for n in range(1, 9) if self.possible(st.facts, s, n)]
                    if len(vals) == 1:
                        cases += self.remembered(eng, st, s, l, x, y, vals)
            if not cases:
                cases = [({}, self.candidates(eng, st.facts, st, x, y, {}))]
            self.judge(eng, ev, k, cases)
            return
        s, = ss
        l = eng.symof.get(s)
        here = self.candidates(eng, st.facts, st, x, y, {s: 1})
        if here or any(s in syms((a,)) for it in st.facts.ineq.values() for a, _ in it[1] if a.k == 'rd' and len(a.a) == 3 and self.rastof(a.a[0]) is self.E):
            for n in range(1, 9):
                f = st.facts.copy()
                if not self.possible(f, s, n):
                    continue
                cases.append(({s: n}, self.candidates(eng, st.facts, st, x, y, {s: n})))
        elif l is not None:
            vals = [n for n in range(-1, 10) if self.possible(st.facts.copy(), s, n)]
            cases = self.remembered(eng, st, s, l, x, y, vals)
            init = self.inits(l)
            for i in init:
                if i in vals and not self.excluded(eng, st, l):
                    cases.append(({s: i}, set()))
        if not cases:
            return self.bad(ev, 'index', 'the direction %s of a stored share is not connected to a neighbour that was examined' % show(k))
        self.judge(eng, ev, k, cases)

    def possible(self, f, s, n):
        if f.ne(s, C(n)) or f.lt(s, C(n)) or f.lt(C(n), s):
            return False
        return True

    def inits(self, l):
        r = set()
        for p in self.pre.values():
            v = p.mem.get(l)
            if v is not None and isc(v):
                r.add(v.a[0])
        return r

    def remembered(self, eng, st, s, l, x, y, vals):
        """neighbours established where the variable was given its value"""
        cases = []
        for v, f, ws in self.writes.get(l, ()):
            m = syms(v)
            if len(m) != 1 or v.k != 'sym' and v.k != 'lin':
                continue
            m, = m
            if m is s:
                continue
            for n in range(1, 10):
                if not self.possible(f, m, n):
                    continue
                got = evaluate(eng, v, {m: n})
                if got in vals:
                    cases.append(({s: got}, self.candidates(eng, f, ws, x, y, {m: n})))
        return cases

    def judge(self, eng, ev, k, cases):
        bad = None
        for env, cand in cases:
            d = evaluate(eng, k, env)
            if d is None or not 1 <= d <= 8 or d != int(d):
                bad = bad or 'a share can be stored under direction %s' % d
            elif D8[int(d)] not in cand:
                bad = bad or 'a share can be stored under direction %d, a step of (%d,%d), but the neighbours examined and found inside and not NoData there are %s' % (
                    d, D8[int(d)][0], D8[int(d)][1], sorted(cand) or 'none')
        if bad:
            return self.bad(ev, 'direction', bad)
        self.c.ok('direction', '%s:%s' % (self.name(), ev.line))

    def rescale(self, ev, old):
        """new = old * factor -> factor"""
        v = ev.val
        if v.k == 'mul' and len(v.a) == 2:
            for i in (0, 1):
                if v.a[i] is old:
                    return v.a[1 - i]
        if v.k == 'div' and v.a[0] is old:
            return mk('div', C(1), v.a[1])
        return None

    # ------------------------------------------------------------- loop summaries
    def loop_end(self, eng, node, entry, back, ex, oth):
        pre = self.pre.get(id(node))
        pend = entry.hist
        marks = False
        paths = []
        for b in back:
            evs = []
            for e in b.events(pend):
                if e.kind == 'wr' and e.loc.k == 'el' and e.loc.a[0] is self.P and len(e.loc.a) == 4:
                    evs.append(e)
                    marks |= isc(e.loc.a[3]) and e.loc.a[3].a[0] == 0
            paths.append((b, evs))
        if marks:
            return self.cell_loop(eng, node, entry, paths)
        L = Loop()
        L.node = node
        L.entry = entry
        L.pre = pre
        locs = set()
        for b, _ in paths:
            locs.update(l for l in b.mem if l.k == 'v' and b.mem[l] is not entry.mem.get(l) and l in entry.mem and entry.mem[l].k == 'sym')
        L.active = {l: [b.mem.get(l) is not entry.mem.get(l) for b, _ in paths] for l in locs}
        L.share = [any(not self.isrescale(e) for e in evs) for b, evs in paths]
        L.resc = [[e for e in evs if self.isrescale(e)] for b, evs in paths]
        L.paths = paths
        L.stores = any(L.share)
        L.ex = ex
        self.loops[id(node)] = L

    def isrescale(self, e):
        if isc(e.val) and e.val.a[0] == 0:
            return True
        return e.old is not None and self.rescale(e, e.old) is not None

    def settled(self, eng, st, l, L):
        """does the path know whether the loop was active, by variable l?  True / False / None"""
        s = L.entry.mem.get(l)
        i = L.pre.mem.get(l) if L.pre else None
        if s is None or i is None or not isc(i):
            return None
        f = st.facts
        if f.ne(s, i) or f.lt(s, i) or f.lt(i, s):
            return True
        if f.eq(s, i) or f.le(s, i) and self.grows(eng, l, L):
            return False
        return None

    def grows(self, eng, l, L):
        """the variable is a sum of shares (or a maximum): it exceeds its start exactly when an iteration was active"""
        return True

    def excluded(self, eng, st, l):
        """the path establishes through another variable set together with l that l was set"""
        for L in self.loops.values():
            if l in L.active:
                for m, act in L.active.items():
                    if act == L.active[l] and self.settled(eng, st, m, L) is True:
                        return True
        return False

    def activity(self, eng, st, L, act):
        """the variables changed on exactly the active iterations -> was the loop active on this path?"""
        for l, a in L.active.items():
            if a == act and any(a):
                r = self.settled(eng, st, l, L)
                if r is not None:
                    return r, l
        return None, None

    def cell_loop(self, eng, node, entry, paths):
        for b, evs in paths:
            x, y = None, None
            for e in evs:
                x, y = e.loc.a[1:3]
            marker = [e for e in evs if isc(e.loc.a[3]) and e.loc.a[3].a[0] == 0]
            direct = [e for e in evs if not (isc(e.loc.a[3]) and e.loc.a[3].a[0] == 0)]
            has = bool(marker) and marker[-1].val is not None and isc(marker[-1].val) and marker[-1].val.a[0] == HASFLOW
            nd = bool(marker) and marker[-1].val is not None and isc(marker[-1].val) and marker[-1].val.a[0] == NODATA
            self.cells += 1
            ev = evs[-1] if evs else None
            cx, cy = self.cell
            if nd:
                if direct:
                    self.bad(ev, 'ndpath', 'a NoData cell gets shares')
                continue
            if self.nodata(eng, b, cx, cy) is not False:
                self.bad(None, 'ndmiss', 'a path through the loop over cells leaves a cell that may be NoData without the NoData marker')
                continue
            if direct:
                if not has:
                    self.bad(direct[0], 'nomark', 'a share is stored on a path that does not mark the cell as having flow')
                    continue
                self.total(eng, b, direct)
                continue
            # neighbour loops this path went through
            inner = [L for L in self.loops.values() if L.entry.mem and self.through(b, L)]
            store = [L for L in inner if L.stores]
            mem = [L for L in inner if not L.stores and any(self.isdir(L, l) for l in L.active)]
            if has:
                for L in store:
                    r, l = self.activity(eng, b, L, L.share)
                    if r is True:
                        self.scaled(eng, b, L, l, inner, ev)
                        break
                else:
                    self.bad(ev, 'empty', 'a cell is marked as having flow on a path that stores no share')
            else:
                for L in store:
                    r, l = self.activity(eng, b, L, L.share)
                    if r is not False:
                        self.bad(ev, 'unmarked', 'shares may have been stored on a path that does not mark the cell as having flow')
                for L in mem:
                    for l in L.active:
                        if self.isdir(L, l) and self.settled(eng, b, l, L) is not False and self.activity(eng, b, L, L.active[l])[0] is not False:
                            self.bad(ev, 'dropped', 'a receiving neighbour may have been found on a path that neither stores a share nor marks the cell')
                self.c.ok('noflow', self.name())

    def isdir(self, L, l):
        """the loop remembers the neighbour number in this variable"""
        e = L.entry.mem.get(l)
        for b, _ in L.paths:
            v = b.mem.get(l)
            if v is not None and v is not e and v.k == 'sym' and v in self.loopvars(L):
                return True
        return False

    def loopvars(self, L):
        """counters of the loop (they change on every path by the same step)"""
        r = set()
        for l, a in L.active.items():
            s = L.entry.mem[l]
            if all(a) and all(isc(sub(b.mem[l], s)) for b, _ in L.paths if l in b.mem):
                r.add(s)
        return r

    def through(self, b, L):
        return any(e.kind == 'loopend' and e.node is L.node for e in b.events())

    def total(self, eng, b, direct):
        last = {}
        for e in direct:
            last[strip_ucast(e.loc.a[3])] = e.val
        ks = list(last)
        for i, k in enumerate(ks):
            for j in ks[:i]:
                ss = syms(k) | syms(j)
                s = list(ss)[0] if len(ss) == 1 else None
                for n in range(1, 9):
                    if s is None or self.possible(b.facts, s, n):
                        p, q = evaluate(eng, k, {s: n}), evaluate(eng, j, {s: n})
                        if p is None or p == q:
                            return self.bad(direct[0], 'twice', 'two shares of one cell can go to the same direction, so that the second replaces the first')
        t = C(0)
        for v in last.values():
            t = add(t, v)
        if isc(t) and abs(t.a[0] - 1) < 1e-9:
            return self.c.ok('sum', self.name())
        c, d = lin(t)
        if abs(c - 1) < 1e-9 and all(abs(k) < 1e-9 for k in d.values()):
            return self.c.ok('sum', self.name())
        self.bad(direct[0], 'sum', 'the shares stored on a path sum to %s, not to one' % show(t))

    def scaled(self, eng, b, L, l, inner, ev):
        """loop L adds each stored share to l; a later loop multiplies each share by 1/l"""
        s = L.entry.mem[l]
        for k, (p, evs) in enumerate(L.paths):
            if not L.share[k]:
                continue
            st = [e for e in evs if not self.isrescale(e)]
            inc = sub(p.mem[l], s)
            if len(st) != 1 or not (inc is st[-1].val):
                return self.bad(st[0], 'sumvar', 'the sum the shares are divided by does not add the share that was stored')
        for M in inner:
            if M is L or not any(M.resc):
                continue
            ok = True
            for (p, evs), rs in zip(M.paths, M.resc):
                fs = [e for e in rs if not (isc(e.val) and e.val.a[0] == 0)]
                if fs:
                    fct = self.rescale(fs[-1], fs[-1].old)
                    if not (fct.k == 'div' and isc(fct.a[0]) and fct.a[0].a[0] == 1 and fct.a[1] is s):
                        ok = False
                elif not rs:
                    ok = ok and self.untouched(p, evs)
                else:
                    o = rs[-1].old
                    if o is None or not (p.facts.le(o, C(0))):
                        ok = False
            if ok and self.covers(M, L):
                return self.c.ok('sum', self.name())
        self.bad(ev, 'scale', 'the stored shares are not all divided by their sum')

    def untouched(self, p, evs):
        """an iteration that leaves the share alone must know it is not a positive share"""
        for (c, items, s) in p.facts.ineq.values():
            if len(items) == 1 and items[0][1] > 0 and items[0][0].k == 'rd' and len(items[0][0].a) == 4 and c >= 0:
                return True
        return False

    def covers(self, M, L):
        """the later loop runs over the same neighbour numbers"""
        def rng(Q):
            vs = self.loopvars(Q)
            for l in Q.active:
                s = Q.entry.mem[l]
                if s in vs and Q.pre and isc(Q.pre.mem.get(l, s)):
                    i = Q.pre.mem[l].a[0]
                    # an iteration is possible for i..n
                    starts = [b.facts for b, _ in Q.paths]
                    hi = max([n for n in range(0, 12) if any(self.possible(f, s, n) for f in starts)] or [-1])
                    return i, hi
            return None
        return rng(M) is not None and rng(M) == rng(L)


def one(c, u, f):
    r = Root(c, u, f)
    e = E25(u, Policy(), lambda eng, ev, st: r.note(eng, ev, st))
    e.loop_end = r.loop_end
    try:
        e.analyse(f, r.setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    r.finish()
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))


def note(self, eng, ev, st):
    if ev.kind == 'wr' and ev.loc is not None and ev.loc.k == 'el' and ev.loc.a[0] is self.P and len(ev.loc.a) == 4:
        self.cell = ev.loc.a[1:3]
    self(eng, ev, st)


def finish(self):
    if self.P is None or self.E is None:
        return
    if not self.cells:
        self.bad(None, 'cells', 'no loop marks the cells')
    elif not self.marker:
        self.bad(None, 'never', 'no path marks a cell as having flow')


Root.note = note
Root.finish = finish
Root.cell = (None, None)


def run(c, tier):
    us = units.load(units.harness('flow'))
    jobs = []
    for k, u in enumerate(us):
        for f in u.fns.values():
            if inrepo(u, f) and short(f['qn']).startswith('FM_') and len(f['p']) >= 2 and not f.get('lam'):
                jobs.append((k, f['fn']))
    pmap(c, jobs, lambda c, j: one(c, us[j[0]], us[j[0]].fns[j[1]]) and None)
    c.need('direction', 6)
    c.need('marker', 6)
    c.need('sum', 6)
