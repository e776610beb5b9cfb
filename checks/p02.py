"""Every loop that looks at the neighbours of a cell is found by its effect: some cell it examines lies at an offset that
depends on the loop's counter.  With the offset tables evaluated, the steps taken for all counter values an iteration can
have must be the eight (or, in code for the four-connected topology, the four) compass steps, each once; for every counter
value some path must examine the neighbour; and no path may leave the scan because the neighbour at hand lies outside, holds
NoData or is already marked unless that path records a finding.  A counting loop over 1..8 that examines neighbours only
through another loop's counter is a violation too."""
from common import *
import p25

RULE = __doc__
EIGHT = {(-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1)}
FOUR = {(-1, 0), (0, -1), (1, 0), (0, 1)}
evaluate, syms = p25.evaluate, p25.syms


class E2(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.symof = {}

    def havoc(self, st, loc, name='h'):
        Engine.havoc(self, st, loc, name)
        v = st.mem.get(loc)
        if v is not None and v.k == 'sym':
            self.symof[v] = loc


def parts(t, s):
    """the atoms of a coordinate that depend on s -> (offset term, rest)"""
    c, d = lin(t)
    off, rest = {}, {}
    for a, k in d.items():
        (off if s in syms(a) else rest)[a] = k
    return unlin(0, off), unlin(c, rest), bool(off)


def cells(t, r, seen):
    """coordinates of raster cells read in a term"""
    if isinstance(t, T):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.k == 'rd' and len(t.a) >= 3:
            r.add((t.a[1], t.a[2]))
        elif t.k == 'idx':
            r.add((t.a[1], t.a[2]))
        for a in t.a:
            cells(a, r, seen)
    elif isinstance(t, tuple):
        for a in t:
            cells(a, r, seen)


def pathcells(eng, st, hist, s):
    """coordinates that the iteration ending in st examined, tested or stored, and that depend on s"""
    r = set()
    seen = set()
    for e in st.events(hist):
        for t in (e.loc, e.val):
            if isinstance(t, T):
                if t.k == 'el' and len(t.a) >= 3:
                    r.add((t.a[1], t.a[2]))
                cells(t, r, seen)
        for t in e.args or ():
            if isinstance(t, T):
                cells(t, r, seen)
    tabs = set()
    for (c, items, _) in st.facts.ineq.values():
        for a, k in items:
            cells(a, r, seen)
            if a.k == 'tb' and s in syms(a):
                tabs.add(a)
    for a in tabs:
        if a.a[0].endswith('x'):
            b = mk('tb', a.a[0][:-1] + 'y', a.a[1])
            if b in tabs:
                r.add((a, b))
    for key in st.facts.diseq:
        cells(key, r, seen)
    for v in st.mem.values():
        if isinstance(v, T):
            cells(v, r, seen)
    for k in st.mem:
        if k.k == 'el' and len(k.a) >= 3:
            r.add((k.a[1], k.a[2]))
    return {p for p in r if s in syms(p[0]) or s in syms(p[1])}


class Root:
    def __init__(self, c, u, f):
        self.c, self.u, self.f = c, u, f
        self.pre = {}
        self.names = set()
        self.inner = {}

    def __call__(self, eng, ev, st):
        self.names.update(x[0] for x in ev.stack)
        if ev.kind == 'loop':
            self.pre[id(ev.node)] = ev.info[0]

    def topo(self, eng):
        for fn in reversed(eng.active):
            ta = eng.u.fns[fn].get('ta') or ''
            if 'Topology::D4' in ta:
                return 4
            if 'Topology::D8' in ta:
                return 8
        return None

    def consistent(self, eng, f, s, n):
        """can the counter have value n in these facts?"""
        if f.ne(s, C(n)) or f.lt(s, C(n)) or f.lt(C(n), s):
            return False
        for (c, items, strict) in f.ineq.values():
            t = c
            for a, k in items:
                v = evaluate(eng, a, {s: n})
                if v is None:
                    break
                t += k * v
            else:
                if t > 0 or strict and t == 0:
                    return False
        for d in f.diseq:
            if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], tuple):
                t = d[0]
                for a, k in d[1]:
                    v = evaluate(eng, a, {s: n}) if isinstance(a, T) else None
                    if v is None:
                        break
                    t += k * v
                else:
                    if t == 0:
                        return False
        return True

    def values(self, eng, node, l, s, step, allst):
        """the values the counter can have in an iteration"""
        p = self.pre.get(id(node))
        i = p.mem.get(l) if p else None
        ok = [n for n in range(-1, 11) if any(self.consistent(eng, b.facts, s, n) for b in allst)]
        if i is not None and isc(i):
            ok = [n for n in ok if (n - i.a[0]) % step == 0 and (n - i.a[0]) // step >= 0]
        return ok

    def loop_end(self, eng, node, entry, back, ex, oth):
        cnt = {}
        for l, s in entry.mem.items():
            if l.k == 'v' and s.k == 'sym' and back and all(l in b.mem for b in back):
                d = {sub(b.mem[l], s) for b in back}
                if len(d) == 1 and isc(next(iter(d))) and next(iter(d)).a[0] != 0:
                    cnt[s] = (l, next(iter(d)).a[0])
        name = short(eng.stack[-1][0]) if eng.stack else short(self.f['qn'])
        at = '%s:%s' % (units.rel(getattr(eng, 'curfile', '') or eng.u.file(self.f)), node.get('l'))
        leaves = [o for o in ex if o.v == 'brk'] + [o for o in oth if o.k in ('ret', 'goto')]
        if not cnt:
            return
        allst = list(back) + [o.st for o in leaves]
        found = False
        for s, (l, stepv) in cnt.items():
            rng = self.values(eng, node, l, s, stepv, allst)
            groups = {}
            seenby = {}
            for k, b in enumerate(allst):
                for X, Y in pathcells(eng, b, entry.hist, s):
                    ox, rx, px = parts(X, s)
                    oy, ry, py = parts(Y, s)
                    v = [(evaluate(eng, ox, {s: n}), evaluate(eng, oy, {s: n})) for n in rng]
                    if not v or any(p is None or q is None for p, q in v):
                        continue
                    if max(abs(p) for q in v for p in q) > 1 or len(set(v)) < 2:
                        continue
                    groups[(ox, oy)] = v
                    seenby.setdefault((ox, oy), set()).add(k)
            if not groups or len(rng) > 9:
                continue
            found = True
            self.judge(eng, name, at, node, s, l, rng, groups, allst, back, leaves, entry, stepv)
        if not found:
            for s, (l, stepv) in cnt.items():
                rng = [n for n in range(-1, 11) if any(self.consistent(eng, b.facts, s, n) for b in allst)]
                if rng in (list(range(1, 9)), list(range(1, 5))):
                    self.unused(eng, name, at, node, s, allst, entry)

    def unused(self, eng, name, at, node, s, allst, entry):
        """a loop over direction numbers whose counter selects no neighbour although it examines one"""
        for b in allst:
            used = False
            for e in b.events(entry.hist):
                if any(isinstance(t, T) and s in syms(t) for t in [e.loc, e.val] + list(e.args or ())):
                    l = e.loc
                    if not (e.kind == 'wr' and l is eng.symof.get(s)):
                        used = True
            for (c, items, _) in b.facts.ineq.values():
                if any(a is not s and s in syms(a) for a, k in items):
                    used = True
            for d in b.facts.diseq:
                if isinstance(d, tuple) and len(d) == 2 and any(isinstance(a, T) and a is not s and s in syms(a) for a, k in d[1]):
                    used = True
            for v in b.mem.values():
                if isinstance(v, T) and v is not s and v.k != 'lin' and s in syms(v):
                    used = True
            if used:
                return
        self.c.bad('scan', '%s unused' % name, 'a loop over the direction numbers in %s never uses its counter to select a neighbour' % name, at)

    def judge(self, eng, name, at, node, s, l, rng, groups, allst, back, leaves, entry, stepv):
        topo = self.topo(eng)
        want = FOUR if topo == 4 else EIGHT
        union = set()
        bad = None
        for k, v in groups.items():
            union |= set(v)
            if len(groups) == 1 and len(set(v)) != len(v):
                bad = 'a neighbour is visited twice'
            elif len({v.count(x) for x in v}) != 1:
                bad = 'some neighbours are visited more often than others'
        if union != want:
            miss, more = sorted(want - union), sorted(union - want)
            if miss:
                bad = 'the neighbours at %s are never examined' % miss
            elif more:
                bad = 'cells at %s are examined, which are not neighbours in this topology' % more
        if bad:
            return self.c.bad('scan', '%s range %s' % (name, bad), 'the scan of the neighbours in %s: %s' % (name, bad), at)
        self.c.ok('scan', '%s@%s' % (name, at))
        # every direction is examined on some path
        for n in rng:
            if not any(self.consistent(eng, b.facts, s, n) and any((parts(X, s)[0], parts(Y, s)[0]) in groups
                       for X, Y in pathcells(eng, b, entry.hist, s)) for b in allst):
                self.c.bad('each', '%s each' % name, 'the scan of the neighbours in %s never examines the neighbour for direction number %d' % (name, n), at)
                break
        else:
            self.c.ok('each', '%s@%s' % (name, at))
        for o in leaves:
            if not self.records(o, entry, l, node):
                why = self.why(eng, o, s, groups)
                self.c.bad('leave', '%s leave' % name, 'the scan of the neighbours in %s ends at a neighbour that %s; the remaining neighbours are not considered' % (name, why), at)
            else:
                self.c.ok('leave', '%s@%s' % (name, at))

    def why(self, eng, o, s, groups):
        """what the leaving path knows about the neighbour at hand"""
        f = o.st.facts
        gx, gy = {g[0] for g in groups}, {g[1] for g in groups}
        for (c, items, _) in f.ineq.values():
            d = {a: k for a, k in items if a not in (eng.W, eng.H)}
            dep = [a for a in d if s in syms(a)]
            if len(dep) != 1 or dep[0].k == 'rd' and len(dep[0].a) >= 3:
                continue
            t = unlin(0, {a: k * d[dep[0]] for a, k in d.items()})
            if dep[0] in gx and (f.lt(t, C(0)) or f.le(eng.W, t)) or dep[0] in gy and (f.lt(t, C(0)) or f.le(eng.H, t)):
                return 'lies outside the raster'
        for (c, items, strict) in f.ineq.values():
            nd = [b for b, _ in items if b.k == 'fv' and b.a[-1] == 'no_data']
            for a, k in items:
                if a.k == 'rd' and len(a.a) >= 3 and (s in syms(a.a[1]) or s in syms(a.a[2])) and nd and f.eq(a, nd[0]):
                    return 'holds NoData'
        return 'is merely skipped'

    def records(self, o, entry, l, node):
        """the leaving path writes something that outlives the iteration, or returns a value, or the counter lives on"""
        if o.k in ('ret', 'goto'):
            return True
        for e in o.st.events(entry.hist):
            if e.kind in ('push', 'setall'):
                return True
            if e.kind == 'wr' and e.loc is not None and (e.loc.k in ('el', 'fld') or e.loc in entry.mem) and e.loc is not l:
                return True
        ds = set()
        for key in ('init', 'i'):
            walk(node.get(key), lambda y: ds.update([y['d']] if 'd' in y and 'n' in y else []))
        return not any('@%d~' % d in str(l.a[0]) for d in ds)


def roots2(u):
    seen = set()
    r = []
    for f in roots(u):
        if f.get('cls') in (ARR2, ARR3):
            continue
        ta = f.get('ta') or ''
        key = (f['qn'], 'D4' in ta, len(f['p']))
        if key in seen:
            continue
        seen.add(key)
        r.append(f)
    return r


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat'))
    each_root(c, us, one, select=roots2)
    ap = units.load(units.programs())
    jobs = []
    for k, u in enumerate(ap):
        seen = set()
        for f in u.fns.values():
            if inrepo(u, f) and '/programs/' in u.file(f) and not f.get('lam') and f['qn'] not in seen and scans(f):
                seen.add(f['qn'])
                jobs.append((k, f['fn']))
    pmap(c, jobs, lambda c, j: one(c, ap[j[0]], ap[j[0]].fns[j[1]], Apart()) and None)
    c.need('scan', 40)


class Apart(Policy):
    """programs: functions that scan neighbours are interpreted one by one"""

    def inline(self, eng, f, depth):
        return not ('/programs/' in eng.u.file(f) and scans(f)) and Policy.inline(self, eng, f, depth)


def scans(f):
    return bool(nodes(f['body'], lambda y: y['k'] == 'ref' and y.get('n') in ('d8x', 'd8y', 'd4x', 'd4y', 'dx', 'dy', 'dinf_dx')))


def one(c, u, f, pol=None):
    r = Root(c, u, f)
    e = E2(u, pol or Policy(), r)
    e.loop_end = r.loop_end
    try:
        e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))
    return r.names
