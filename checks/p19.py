"""Every constructor of every repository class (templates instantiated) is interpreted with all scalar members indeterminate
at entry; members still indeterminate at a normal exit are its leftovers.  A private leftover must not be read by any member
function before that function wrote it.  A public leftover is permitted only for the plain records listed in the table (records
whose creators fill them in).  Every local object and local scalar of every analysed function is followed: reading a member or
variable that no path wrote, or sending a record with such a member to another process, is a violation."""
from common import *
import p05

RULE = __doc__
# plain records: members their default constructor leaves to the code that creates the object
COORD = {'x', 'y', 'z', 'k'}
RECORDS = {'richdem::GridCell': {0: {'x', 'y'}}, 'richdem::GridCellZ': {0: COORD}, 'richdem::GridCellZk_high': {0: COORD}, 'richdem::GridCellZk_low': {0: COORD},
           'richdem::dephier::Outlet': {0: {'depa', 'depb'}},
           'richdem::TA_Setup_Vars': {0: set('abcdefghi')}, 'richdem::TA_Setup_Curves_Vars': {0: set('LDEFGH')},
           'TileInfo': {0: {'width', 'many', 'gridy', 'gridx', 'height', 'edge', 'flip', 'y', 'x', 'label_increment', 'label_offset'}, 11: {'label_increment', 'label_offset'}},
           'Job1': {0: {'vmhwm', 'io', 'overall', 'gridy', 'gridx', 'calc', 'vmpeak'}}, 'TimeInfo': {0: {'vmhwm', 'io', 'overall', 'calc', 'vmpeak'}},
           'ProducerSpecifics::Calculations::atype': {0: {'gx', 'gy', 's'}}}
SKIP = ('CLI::', 'radix_heap::', 'cereal::', 'Catch::', 'doctest::', 'std::')


def undef(n, cls):
    return mk('undef', n, cls)


class E19(Engine):
    zi = False

    def mine(self, rec):
        return rec['qn'].startswith(('richdem', 'dephier')) or inroot(self.u, rec)

    def scalars_of(self, rec):
        if rec is None or rec.get('union') or rec.get('lam') or not self.mine(rec):
            return []
        return [f['n'] for f in rec['fields'] if f.get('scalar') and not f.get('ie')]

    def run_fn(self, f, st, args, thisloc, node, thisl=None):
        if f.get('isctor') and not f.get('copyctor') and not (node or {}).get('zi'):
            t = thisloc if thisloc is not None else thisl if thisl is not None else self.thisloc
            for n in self.scalars_of(recof(self.u, f)):
                st.mem[mk('fld', t, n)] = undef(n, f['cls'])
        return Engine.run_fn(self, f, st, args, thisloc, node, thisl)

    def field_defaults(self, s, rec, loc, depth=0):
        Engine.field_defaults(self, s, rec, loc, depth)
        if not self.zi:
            for n in self.scalars_of(rec):
                s.mem[mk('fld', loc, n)] = undef(n, rec['qn'])

    def construct(self, e, st, loc):
        old, self.zi = self.zi, bool(e.get('zi'))
        try:
            return Engine.construct(self, e, st, loc)
        finally:
            self.zi = old


class Methods(E19):
    """raster classes are interpreted, not modelled"""
    def hook(self, e, s, qn, n, o, a, want):
        if qn.startswith(ARR2 + '::') and n in ('resize', 'setNoData', 'noData', 'width', 'height', 'size', 'empty', 'clear', 'isNullTile') and len(self.stack) < 6:
            f = self.u.fns.get(e.get('fn'))
            if f is not None and f.get('body'):
                return self.inline(e, s, f, a, o, want)
        return None


def recof(u, f):
    t = bare(u.types[f['clst']]) if 'clst' in f else None
    for r in u.reclist:
        if bare(u.types[r['t']]) == t:
            return r
    return u.records.get(f.get('cls'))


def inroot(u, rec):
    fl = u.files[rec['file']]
    return fl.startswith(units.REPO + '/') and '/cereal/' not in fl and '/catch' not in fl and not rec['qn'].startswith(SKIP)


def cond_undef(v):
    return v is not None and v.k == 'undef'


def observer(c, u, bad, seen=None):
    def on(eng, ev, st):
        if seen is not None:
            seen.update(x[0] for x in ev.stack)
        if ev.kind == 'rd' and ev.loc is not None:
            v = st.mem.get(ev.loc)
            if cond_undef(v):
                bad.setdefault((fname(ev), v.a), (evwhere(ev), 'reads', ev.loc))
        elif ev.kind == 'call' and ev.fn and str(ev.fn).rsplit('::', 1)[-1].startswith('Comm'):
            for a in ev.args or ():
                if isinstance(a, T) and a.k == 'objat':
                    for k, v in st.mem.items():
                        if v.k == 'undef' and eng.under(k, a.a[0]):
                            bad.setdefault((fname(ev), v.a), (evwhere(ev), 'sends', k))
    return on


def run(c, tier):
    hs = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat'))
    ps = units.load(units.programs())
    ap = units.load(units.apps() + units.srcs())
    left = classes(c, [hs[0], hs[2], hs[3], hs[4]] + ps)
    members(c, [hs[0], hs[2], hs[3], hs[4]] + ps, left)
    each_root(c, hs, lambda c, u, f: users(c, u, f, p05.Pol()))
    each_root(c, ps + ap, lambda c, u, f: users(c, u, f, Coarse()), alone=False, select=own)
    c.need('constructor', 25)
    c.need('user', 60)


class Coarse(p05.Shallow):
    maxstates = 6
    maxdepth = 2
    budget = 60000
    tmax = 40


class Coarser(Coarse):
    maxstates = 2
    maxdepth = 0
    tmax = 30


def own(u):
    """the functions of a program, one instantiation of each"""
    r = {}
    for f in u.fns.values():
        if inrepo(u, f) and ('/apps/' in u.file(f) or '/programs/' in u.file(f) or '/src/' in u.file(f)):
            if suspects(u, f):
                r.setdefault((f['qn'], f['line']), f)
    return list(r.values())


def suspects(u, f):
    """does the function create a scalar without value, or a record with such members?"""
    hit = []

    def leaves(cls):
        rec = u.records.get(cls)
        return rec is not None and inroot(u, rec) and any(x.get('scalar') and not x.get('ie') for x in rec['fields'])

    def see(y):
        if y.get('k') == 'ctor' and not y.get('copy') and not y.get('a') and leaves(y.get('cls')):
            hit.append(y)
        for v in y.get('vars', []) if y.get('k') == 'decl' else []:
            if not v.get('init') and not v.get('static') and not v.get('refty') and bare(u.types[v['t']]) in SCALAR:
                hit.append(v)
    walk(f['body'], see)
    return bool(hit)


SCALAR = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'bool', 'float', 'double', 'long double'}


def npar(f):
    return len(f['p'])


def ctors(u):
    """(function or None for an implicit one, record)"""
    for rec in u.reclist:
        if not inroot(u, rec) or rec.get('union') or rec.get('lam'):
            continue
        t = bare(u.types[rec['t']])
        have = False
        for f in u.fns.values():
            if f.get('isctor') and not f.get('copyctor') and bare(u.types[f.get('clst', -1)] if 'clst' in f else '') == t and f.get('body'):
                yield f, rec
                have |= npar(f) == 0
        if not have and (rec.get('ndflt') or any(k.get('dflt') and not k.get('deleted') and not k.get('user') for k in rec['ctors'])):
            yield None, rec


def classes(c, us):
    """-> {(class, type): leftover private members}"""
    jobs = []
    for k, u in enumerate(us):
        seen = set()
        for f, rec in ctors(u):
            key = (f['fn'] if f else None, rec['t'])
            if key in seen:
                continue
            seen.add(key)
            jobs.append((k, f['fn'] if f else None, u.reclist.index(rec)))
    res = pmap(c, jobs, lambda c, j: ctor(c, us[j[0]], us[j[0]].fns[j[1]] if j[1] else None, us[j[0]].reclist[j[2]]))
    left = {}
    for j, r in zip(jobs, res):
        if r:
            left.setdefault((j[0], j[2]), set()).update(r)
    return left


def ctor(c, u, f, rec):
    cls = short(rec['qn'])
    out = set()
    if f is None:
        out = implicit(u, rec, '')
        np = 0
        w = '%s:%s' % (units.rel(u.files[rec['file']]), rec['line'])
    else:
        np = npar(f)
        w = where(u, f)
        bad = {}
        e = Methods(u, p05.Pol(), observer(c, u, bad))
        e.pol.inline_raster = True
        try:
            outs = e.analyse(f)
        except Budget:
            raise units.ToolError('analysis budget exceeded in ' + f['qn'])
        c.fn(f['qn'] + '/%d' % np)
        for (fn, a), (wh, how, _) in bad.items():
            c.bad('constructor', '%s reads %s' % (fn, a[0]), 'the constructor of %s reads its member %s before giving it a value' % (cls, a[0]), wh)
        for o in outs:
            if o.k != 'thr':
                for k, v in o.st.mem.items():
                    if v.k == 'undef' and k.k == 'fld':
                        r = k
                        while r.k == 'fld':
                            r = r.a[0]
                        if r is e.thisloc:
                            out.add((k.a[1], k.a[0] is e.thisloc))
    priv = set()
    acc = {x['n']: x.get('acc', 0) for x in rec['fields']}
    okset = set()
    for q, t in RECORDS.items():
        if rec['qn'] == q or rec['qn'].endswith('::' + q):
            okset = t.get(np, set())
    for n, own in sorted(out):
        if own and acc.get(n, 0) != 0:
            priv.add(n)
        elif n in okset:
            c.ok('record', '%s/%d %s' % (cls, np, n))
        elif own and rec['qn'] in RECORDS or rec['qn'].startswith('richdem'):
            c.bad('constructor', '%s/%d %s' % (cls, np, n), 'a constructor of %s leaves its member %s without a value' % (cls, n), w)
        elif own:
            c.bad('constructor', '%s/%d %s' % (cls, np, n), 'a constructor of %s leaves its member %s without a value' % (cls, n), w)
    c.ok('constructor', '%s/%d' % (cls, np))
    return priv


def implicit(u, rec, path):
    out = set()
    for f in rec['fields']:
        if f.get('scalar') and not f.get('ie') and not f.get('init'):
            out.add((f['n'], path == ''))
    return out


def members(c, us, left):
    """private leftovers: no member function may read them first"""
    jobs = [(k, ri, f['fn']) for (k, ri), ns in left.items() for f in us[k].fns.values()
            if f.get('clst') is not None and f.get('body') and not f.get('isctor') and not f.get('static') and
            bare(us[k].types[f['clst']]) == bare(us[k].types[us[k].reclist[ri]['t']])]
    pmap(c, jobs, lambda c, j: member(c, us[j[0]], us[j[0]].reclist[j[1]], us[j[0]].fns[j[2]], left[j[0], j[1]]))


def member(c, u, rec, f, ns):
    bad = {}

    def setup(eng, st, f, args):
        for n in ns:
            st.mem[mk('fld', eng.thisloc, n)] = undef(n, rec['qn'])
    e = Methods(u, p05.Pol(), observer(c, u, bad))
    e.pol.inline_raster = True
    try:
        e.analyse(f, setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    hit = False
    for (fn, a), (wh, how, loc) in bad.items():
        if a[0] in ns and a[1] == rec['qn']:
            hit = True
            c.bad('member', '%s %s' % (short(f['qn']), a[0]), '%s reads the member %s, which a constructor of %s leaves without a value' % (
                short(f['qn']), a[0], short(rec['qn'])), wh)
    if not hit:
        c.ok('member', short(f['qn']))


def users(c, u, f, pol):
    seen = set()
    for p in (pol, Coarse(), Coarser()):
        bad = {}
        e = E19(u, p, observer(c, u, bad, seen))
        try:
            e.analyse(f)
            break
        except Budget:
            continue
    else:
        c.notes.append('not decided within the budget: ' + f['qn'])
        return seen
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))
    for (fn, a), (wh, how, loc) in bad.items():
        own = ' of a %s' % short(a[1]) if len(a) > 1 else ''
        c.bad('user', '%s %s%s' % (fn, a[0], own), '%s %s %s%s, which was never given a value' % (fn, how, a[0], own), wh)
    c.ok('user', f['qn'])
    return seen
