"""Each OpenMP region is interpreted as one generic iteration (callees inlined).  Every shared location it writes must be
private (declared inside, loop variable, private/reduction clause), an element whose index is a fixed offset of the
region's own iteration variables in all of the region's accesses, or accessed only inside atomic/critical constructs or by
thread 0; each other written location is a race."""
import re
from common import *

RULE = __doc__


class E4(Engine):
    def hook(self, e, s, qn, n, o, a, want):
        if n in ('omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads'):
            v = mk('fnv', n)
            self.nonneg.setdefault(v, 0)
            return [self.ret(e, s, v, want)]
        return None


class Pol(Policy):
    noinline_cls = tuple(x for x in Policy.noinline_cls if 'ProgressBar' not in x)


class Region:
    def __init__(self, node, frame, fn, file):
        self.node, self.frame, self.fn, self.file = node, frame, fn, file
        self.priv = set()
        self.iv = []
        self.acc = {}
        self.line = node.get('l')
        walk(node.get('b'), self.decls)
        self.clauses(node)
        walk(node.get('b'), lambda y: self.clauses(y) if y.get('k') == 'omp' else None)
        if 'for' in node['dir']:
            self.loopvars(node)

    def clauses(self, n):
        for cl in n.get('cl', []):
            if cl['n'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                self.priv |= {v for v in cl['vars'] if isinstance(v, int)}

    def decls(self, y):
        if y.get('k') == 'decl':
            for v in y['v']:
                if not v.get('static'):
                    self.priv.add(v['d'])
        if y.get('k') == 'rfor':
            self.priv.add(y['var']['d'])

    def loopvars(self, node):
        n = 1
        for cl in node.get('cl', []):
            if cl['n'] == 'collapse':
                v = cl.get('v')
                while isinstance(v, dict):
                    v = v.get('v', v.get('val', v.get('e')))
                n = int(v or 1)
        x = node.get('b')
        while x is not None and n > 0:
            while x is not None and x['k'] == 'block' and len([s for s in x['s'] if s]) == 1:
                x = [s for s in x['s'] if s][0]
            if x is None or x['k'] not in ('for', 'rfor'):
                break
            if x['k'] == 'for' and x.get('init') and x['init']['k'] == 'decl':
                self.iv.append(x['init']['v'][0]['d'])
            elif x['k'] == 'for' and x.get('init') and x['init']['k'] == 'expr':
                a = x['init']['e']
                if a['k'] == 'assign' and a['a'].get('d') is not None:
                    self.iv.append(a['a']['d'])
                    self.priv.add(a['a']['d'])
            x = x.get('b')
            n -= 1


class Listener:
    def __init__(self, c, u, f):
        self.c, self.u, self.f = c, u, f
        self.regions = {}
        self.fors = {}

    def region(self, st):
        """innermost enclosing parallel construct that is active"""
        for o in st.omp:
            if 'parallel' in o.a[1]:
                return self.regions.get(o.a[0])
        return None

    def __call__(self, eng, ev, st):
        if ev.kind == 'omp':
            if 'parallel' in (ev.info or '') and id(ev.node) not in self.regions:
                self.regions[id(ev.node)] = Region(ev.node, eng.frame(), fname(ev), ev.file)
            elif ev.info and 'for' in ev.info:
                self.fors[id(ev.node)] = Region(ev.node, eng.frame(), fname(ev), ev.file)
            return
        if not st.omp or ev.kind not in ('rd', 'wr', 'push', 'pop', 'cmod', 'peek', 'setall', 'resize'):
            return
        r = self.region(st)
        if r is None or ev.loc is None:
            return
        root = eng.root(ev.loc)
        if self.private(eng, r, root, st):
            return
        if root.k == 'gl' and self.u.gq.get(root.a[0], {}).get('const'):
            return
        w = ev.kind not in ('rd', 'peek') or (ev.kind == 'rd' and ev.info == 'rmw')
        if ev.kind == 'rd' and ev.info == 'rmw':
            return      # the matching write is recorded
        ivs = list(r.iv)
        for o in st.omp:
            q = self.fors.get(o.a[0])
            if q is not None:
                ivs += [d for d in q.iv if d not in ivs]
        guard = 'excl' if any(o.a[1] in ('critical', 'atomic', 'ordered') for o in st.omp) else None
        if guard is None and st.facts.le(mk('fnv', 'omp_get_thread_num'), C(0)):
            guard = 'thread0'
        if guard is None and any(o.a[1] in ('single', 'master') for o in st.omp):
            guard = 'single'
        keyloc = ev.loc
        ix = ()
        if ev.loc.k in ('el', 'fld', 'cnt'):
            # outermost indexed access determines the element
            l, els = ev.loc, []
            while l.k in ('fld', 'el', 'cnt'):
                if l.k == 'el':
                    els.append(l)
                l = l.a[0]
            if els:
                e0 = els[-1]
                keyloc = e0.a[0]
                ix = tuple(x for x in e0.a[1:])
                path, l = [], ev.loc
                while l is not e0:
                    if l.k == 'fld':
                        path.append(l.a[1])
                    l = l.a[0]
                keyloc = mk('fp', keyloc, tuple(reversed(path)))
        if keyloc.k != 'fp':
            keyloc = mk('fp', keyloc, ())
        sig = self.offset(eng, st, r, ivs, ix) if ix else None
        if any('omp_get_thread_num' in show(x) for x in ix):
            guard = 'own slot'
        r.acc.setdefault(keyloc, []).append((w, ev.kind, sig, guard, ev, bool(ivs)))

    def private(self, eng, r, root, st):
        if root.k == 'heap' or root.k in ('deref', 'str', 'fn', 'lam'):
            return root.k != 'deref'
        if root.k != 'v':
            return False
        nm = root.a[0]
        if not isinstance(nm, str):
            return True
        if nm.startswith('tmp') or nm.startswith('lambda') or nm == 'stream' or nm.startswith('swap'):
            return True
        m = re.match(r'.*@(\d+)(~(.*))?$', nm)
        if not m:
            return nm != 'this'
        if int(m.group(1)) in r.priv and (m.group(3) is None or m.group(3).split(':')[0] == r.frame):
            return True
        fr = (m.group(3) or '').split(':')[0]
        return fr.startswith(r.frame + '/')

    def offset(self, eng, st, r, ivs, ix):
        """positions of an index as fixed offsets of the iteration variables"""
        vals = []
        for d in ivs:
            l = st.env.get(d)
            vals.append(eng.load(st, l) if l is not None else None)
        sig = []
        terms = list(ix)
        if len(terms) >= 2 and terms[0].k == 'ix' and terms[1].k == 'iy' and terms[0].a == terms[1].a:
            terms = [terms[0].a[1]] + terms[2:]
        W = None
        for t in terms:
            t = strip_ucast(t)
            if t.k == 'idx':
                sub_ = [t.a[1], t.a[2]]
            else:
                sub_ = [t]
            for q in sub_:
                c, d = lin(strip_ucast(q))
                hit = [i for i, v in enumerate(vals) if v is not None and not isc(v) and set(lin(v)[1]) <= set(d) and lin(v)[1]]
                if len(hit) == 1 and isc(sub(q, vals[hit[0]])):
                    sig.append((hit[0], sub(q, vals[hit[0]]).a[0]))
                else:
                    sig.append(None)
        need = set(range(len(vals)))
        have = {s[0] for s in sig if s}
        return tuple(sig), need <= have and bool(need)


def judge(c, r):
    rel = units.rel(r.file)
    for fp, own in sorted(r.acc.items(), key=lambda kv: kv[0].id):
        loc, path = fp.a
        # members of one element that are distinct do not overlap
        acc = [a for q, l in r.acc.items() if q.a[0] is loc and (q.a[1][:len(path)] == path or path[:len(q.a[1])] == q.a[1]) for a in l]
        if not any(a[0] for a in own):
            continue
        name = show(loc) + ''.join('.' + p for p in path)
        name = re.sub(r'#\d+', '', name)
        if not any(a[0] for a in acc):
            continue
        writes = [a for a in acc if a[0]]
        key = '%s %s %s' % (rel.split('/')[-1], r.fn, name)
        if all(a[3] in ('excl', 'own slot', 'single') for a in acc) or all(a[3] == 'thread0' for a in acc):
            c.ok('guarded', key)
            continue
        sigs = [a[2] for a in acc]
        if all(s is not None and s[1] for s in sigs):
            # same offsets of the iteration variables in every access
            fixed = [tuple(sorted(q for q in s[0] if q)) for s in sigs]
            if len(set(fixed)) == 1:
                c.ok('own element', key)
                continue
        bad = [a for a in writes if not (a[2] is not None and a[2][1]) and a[3] is None] or \
              [a for a in acc if not (a[2] is not None and a[2][1]) and a[3] is None] or writes
        ev = bad[0][4]
        wr = writes[0][4]
        what = 'writes' if bad[0][0] else 'reads'
        c.bad('race', key, 'the parallel loop of %s (line %s) %s %s, which %s iteration of the loop may access, without atomic, critical or reduction' % (
            r.fn, r.line, what, name + ('' if ev.loc.k != 'el' else ' at %s' % re.sub(r'#\d+', '', show(ev.loc))), 'another'), evwhere(ev))


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat'))
    ap = units.load([p for p in units.apps() if 'omp' in open(p).read()])
    each_root(c, us[1:], one)
    # the loops written in the programs themselves; what they call is covered by the library units
    each_root(c, ap, lambda c, u, f: one(c, u, f, False), alone=False,
              select=lambda u: [f for f in u.fns.values() if inrepo(u, f) and '/apps/' in u.file(f) and nodes(f['body'], lambda y: y['k'] == 'omp')])
    c.need('region', 10)
    c.need('own element', 5)
    # every region of the analysed files was reached
    c.assume('distinct rasters passed to one call do not share storage')


class Shallow(Pol):
    def inline(self, eng, f, depth):
        fl = eng.u.files[f['file']]
        return ('/apps/' in fl or f.get('cls') in (ARR2, ARR3) or f.get('lam')) and Policy.inline(self, eng, f, depth)


def one(c, u, f, deep=True):
    seen = set()
    ls = Listener(c, u, f)
    e = E4(u, Pol() if deep else Shallow(), ls)
    e.listeners.append(lambda eng, ev, st: seen.update(x[0] for x in ev.stack))
    try:
        e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    for r in ls.regions.values():
        c.fn('%s:%s' % (units.rel(r.file), r.fn), r.line)
        judge(c, r)
        c.ok('region', '%s:%s' % (units.rel(r.file), r.fn))
    return seen
