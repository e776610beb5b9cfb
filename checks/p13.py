"""Every store of an elevation made by the filling, breaching and flat-raising operations (callees inlined, loops as one
generic iteration) is an obligation: the facts that hold on the path must entail new >= old for filling and flat raising,
new <= old for breaching without filling.  Two documented schemes need more than the facts of one path: a level remembered
in a variable and given to the cells collected since (max-size filling), where every remembered level must have been
established not to lie below the cell queued along with it; and the lift of a pit to its lowest neighbour before carving
starts, which is accepted only while seeding and only if the level is the running minimum over the neighbours."""
from common import *

RULE = __doc__

# operation -> what it may do to which argument
RAISE = {'PriorityFlood_Original', 'PriorityFlood_Barnes2014', 'PriorityFloodEpsilon_Barnes2014', 'PriorityFlood_Barnes2014_max_dep',
         'PriorityFlood_Wei2018', 'PriorityFlood_Zhou2016', 'FillDepressions', 'FillDepressionsEpsilon', 'ResolveFlatsEpsilon',
         'd8_flats_alter_dem', 'barnes_flat_resolution_d8', 'ResolveFlatsEpsilon_Barnes2014'}
LOWER = {'CompleteBreaching_Lindsay2016', 'BreachDepressions', 'Lindsay2016'}
COMPLETE, SELECTIVE, CONSTRAINED = 0, 1, 2


class Sink(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.symof = {}

    def havoc(self, st, loc, name='h'):
        Engine.havoc(self, st, loc, name)
        v = st.mem.get(loc)
        if v is not None and v.k == 'sym':
            self.symof[v] = loc


def step(v):
    """nextafter(a, dir) -> (a, +1/-1)"""
    d = direction(v)
    return (v.a[1], d) if d else None


def ge(f, v, o):
    """v >= o on this path"""
    if f.le(o, v):
        return True
    s = step(v)
    if s and s[1] < 0 and f.lt(o, s[0]):
        return True
    s = step(o)
    return bool(s and s[1] > 0 and f.lt(s[0], v))


def isread(v, R):
    return v.k == 'rd' and len(v.a) >= 3


class Root:
    def __init__(self, c, u, f, want, label):
        self.c, self.u, self.f, self.want, self.label = c, u, f, want, label
        self.param = None
        self.varw = {}      # variable -> [(value, event, [cells queued on the path], state)]
        self.todo = []
        self.popped = False

    def setup(self, eng, st, f, args):
        for p, a in zip(f['p'], args):
            t = bare(self.u.types[p['t']])
            if self.param is None and t.startswith(ARR2 + '<') and not self.u.types[p['t']].startswith('const'):
                self.param = a.a[0]
            if a.k == 'ld':
                if p['n'] == 'maxdepth':
                    eng._cmp(st, '>=', a, C(0), False)
        if self.label:
            mode, fill = self.label
            for p, i in zip(f['p'], range(len(args))):
                t = bare(self.u.types[p['t']])
                if i == 1:
                    args[i] = C(mode)
                if i == 3:
                    args[i] = C(1 if fill else 0)

    def __call__(self, eng, ev, st):
        if ev.kind == 'pop' or (ev.kind == 'call' and str(ev.fn).endswith('::pop')):
            st.tags['popped'] = 1
        if ev.kind == 'wr' and ev.loc is not None:
            if ev.loc.k == 'v' and ev.val is not None:
                self.varw.setdefault(ev.loc, []).append((ev.val, ev, st.copy(), st.facts.copy()))
            if ev.loc.k == 'el' and ev.loc.a[0] is self.param:
                self.store(eng, ev, st)
        if ev.kind in ('setall', 'resize', 'assign') and ev.loc is not None and eng.under(ev.loc, self.param):
            self.fail(ev, '%s of the whole raster' % ev.kind)

    def fail(self, ev, what):
        fn = short(ev.stack[-1][0])
        self.c.bad('store', '%s %s %s' % (short(self.f['qn']), fn, what), '%s: an elevation stored in %s is not established to be %s than the one it replaces (%s)' % (
            short(self.f['qn']), fn, 'no lower' if self.want > 0 else 'no higher', what), evwhere(ev))

    def store(self, eng, ev, st):
        v, o = ev.val, ev.old
        if o is None and ev.val is not None:
            o = mk('rd', eng.content(st, ev.loc.a[0]), *ev.loc.a[1:])
        if v is None:
            return self.fail(ev, 'unknown value')
        f = st.facts
        good = ge(f, v, o) if self.want > 0 else ge(f, o, v)
        if good:
            return self.c.ok('store', '%s:%s' % (short(ev.stack[-1][0]), ev.line))
        self.todo.append((ev, v, o, ev.loc, f.copy(), bool(st.tags.get('popped'))))

    def finish(self, eng):
        import re
        for ev, v, o, loc, f, popped in self.todo:
            w = eng.symof.get(v)
            if w is None:
                s = step(v)
                w = eng.symof.get(s[0]) if s else None
            why = None
            if self.want > 0 and w is not None and all(x.k == 'fv' and x.a[0].k == 'sym' and str(x.a[0].a[0]).startswith('item') for x in loc.a[1:3]):
                why = self.level(eng, w)
            elif self.want < 0 and w is not None and not popped:
                why = self.minimum(eng, w, loc)
            else:
                why = 'value %s' % show(v)
            if why is None:
                self.c.ok('scheme', '%s:%s' % (short(ev.stack[-1][0]), ev.line))
            else:
                self.fail(ev, re.sub(r'#\d+', '', why))

    def level(self, eng, w):
        """the remembered level never lies below a cell queued for it"""
        n = 0
        for v, ev, st, f in self.varw.get(w, []):
            if isc(v) or v in eng.symof:
                continue
            cells = [e.args for e in st.events() if e.kind == 'push' and e.stack == ev.stack][-1:]
            if not cells:
                return 'a level remembered without a queued cell'
            a = cells[0]
            x = y = None
            if len(a) >= 2:
                x, y = eng.val(st, a[0]), eng.val(st, a[1])
            elif len(a) == 1 and a[0].k == 'objat':
                x, y = eng.load(st, mk('fld', a[0].a[0], 'x')), eng.load(st, mk('fld', a[0].a[0], 'y'))
            if x is None:
                return 'a level remembered without a queued cell'
            e = eng.load(st, mk('el', self.param, x, y))
            if not ge(f, v, e):
                return 'remembered level %s' % show(v)
            n += 1
        return None if n else 'a level that is never remembered'

    def minimum(self, eng, w, loc):
        """the variable is the running minimum over neighbours' elevations"""
        n = 0
        for v, ev, st, f in self.varw.get(w, []):
            if isc(v) and float(v.a[0]) > 1e30:
                continue
            if v in eng.symof:
                continue
            if not isread(v, self.param):
                cand = [z for z in (v.a if v.k == 'min' else ())]
            else:
                cand = [v]
            if not any(isread(z, self.param) for z in cand):
                return 'lift to %s' % show(v)
            old = [z for z in eng.symof if eng.symof[z] is w]
            if not any(f.le(v, z) for z in old):
                return 'lift to %s' % show(v)
            n += 1
        return None if n else 'lift to an unknown level'


def run(c, tier):
    us = units.load(units.harness('depr', 'misc', 'flat'))
    jobs = []
    for k, u in enumerate(us):
        for f in u.fns.values():
            n = short(f['qn'])
            if not inrepo(u, f) or n not in RAISE | LOWER or not f['p']:
                continue
            if n == 'Lindsay2016':
                if len(f['p']) == 6 and f.get('ta') and 'int' not in f['ta']:
                    jobs += [(k, f['fn'], -1, (COMPLETE, True)), (k, f['fn'], -1, (COMPLETE, False)),
                             (k, f['fn'], -1, (SELECTIVE, False)), (k, f['fn'], -1, (CONSTRAINED, False))]
            else:
                jobs.append((k, f['fn'], 1 if n in RAISE else -1, None))
    pmap(c, jobs, lambda c, j: one(c, us[j[0]], us[j[0]].fns[j[1]], j[2], j[3]) and None)
    c.need('store', 10)
    c.assume('breaching lifts a pit to its lowest neighbour before carving (documented); a maximum breaching depth is not negative')


def one(c, u, f, want, label):
    r = Root(c, u, f, want, label)
    e = Sink(u, Policy(), r)
    try:
        e.analyse(f, r.setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    r.finish(e)
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else '') + (' mode %d fill %d' % label if label else ''))
