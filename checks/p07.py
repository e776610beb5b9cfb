"""Files: each function of the library that opens a file and writes raw bytes to it, and its counterpart that reads them, are
interpreted; the n-th transfer of the reader must have the length of the n-th transfer of the writer (terms compared after
replacing what the reader read earlier by what the writer wrote there), and every persisted member must end up holding what was
written from it.  Caches of the distributed programs: what is stored under a name, or under a slot of the retained storage, is
loaded again into the member it came from, and no two rasters share a name or slot.  Messages: the archives of the sending and
receiving function take the same parameters in the same order, bytes are not skipped as white space, and every member of a
message class that one role (worker or coordinator) sets and the other reads is among the members its serialize function
archives."""
import os
from common import *

RULE = __doc__
PERSIST = ('view_width', 'view_height', 'view_xoff', 'view_yoff', 'num_data_cells', 'no_data', 'geotransform', 'projection', '_data')
BULK = ('std::vector', 'std::basic_string', 'std::array', 'richdem::ManagedVector')


def subst(t, m):
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t.k == 'lin':
        c, d = lin(t)
        r = C(c)
        for x, k in d.items():
            r = add(r, scale(subst(x, m), k))
        return r
    a = tuple(subst(x, m) for x in t.a)
    if a == t.a:
        return t
    return mul(*a) if t.k == 'mul' else mk(t.k, *a)


class Str(Engine):
    """strings as terms over what they are put together from"""

    def strof(self, s, v, depth=0):
        if v is None or depth > 8:
            return fresh('str')
        if v.k == 'objat':
            w = s.mem.get(v.a[0])
            if w is None:
                return mk('path', v.a[0])
            return self.strof(s, w, depth + 1) if w.k in ('mkobj', 'objat', 'cat', 'str', 'path') else w
        if v.k == 'mkobj':
            return self.strof(s, v.a[1], depth + 1) if len(v.a) > 1 and isinstance(v.a[1], T) else mk('str', '')
        return v

    def hook(self, e, s, qn, n, o, a, want):
        if qn == 'std::operator+' and len(a) == 2:
            return [self.ret(e, s, mk('cat', self.strof(s, a[0]), self.strof(s, a[1])), want)]
        if qn.startswith('std::basic_string::') and o is not None:
            if n in ('operator+=', 'append') and len(a) == 1:
                s.mem[o] = mk('cat', self.strof(s, mk('objat', o)), self.strof(s, a[0]))
                return [self.ret(e, s, mk('objat', o), want)]
            if n in ('operator=', 'assign') and len(a) == 1:
                s.mem[o] = self.strof(s, a[0])
                return [self.ret(e, s, mk('objat', o), want)]
        if qn == 'std::to_string' and a:
            return [self.ret(e, s, mk('text', self.val(s, a[0])), want)]
        return Engine.hook(self, e, s, qn, n, o, a, want)


def flat(t):
    """the pieces a string is put together from"""
    if t.k == 'cat':
        return flat(t.a[0]) + flat(t.a[1])
    return [t]


# ---------------------------------------------------------------- raw transfers
class E7(Str):
    def content(self, s, l):
        return s.tags.get(('content', l))

    def bulkroot(self, l):
        """the member or variable whose elements a location lies in"""
        while l.k in ('el', 'cnt') or l.k == 'fld' and l.a[0].k != 'v':
            l = l.a[0]
        return l

    def hook(self, e, s, qn, n, o, a, want):
        if qn.split('<')[0].startswith(('std::basic_ostream', 'std::basic_istream', 'std::basic_iostream')) and n in ('write', 'read', 'put', 'get', 'readsome') and o is not None:
            p = self.val(s, a[0])
            ln = self.val(s, a[1]) if len(a) > 1 else C(1)
            at = '%s:%s' % (units.rel(self.curfile), e.get('l', 0))
            seq = s.tags.get('seq', ())
            if s.loops:
                self.looped.add(at)
            i = len(seq)
            loc = p.a[0] if p.k == 'addr' else None
            if n in ('write', 'put'):
                if loc is None:
                    v = ('?', p)
                else:
                    v = self.describe(s, loc)
                s.tags['seq'] = seq + ((o, v, ln, at),)
            else:
                if loc is None:
                    t = ('?', p)
                else:
                    r = self.bulkroot(loc)
                    if r is loc and not self.isbulk(s, loc):
                        f = mk('read', i)
                        for k in [k for k in s.mem if self.under(k, loc)]:
                            del s.mem[k]
                        s.mem[loc] = f
                        t = ('value', f)
                    else:
                        s.tags[('content', r)] = i
                        t = ('bulk', r)
                s.tags['seq'] = seq + ((o, t, ln, at),)
            return [self.ret(e, s, mk('objat', o), want)]
        if o is not None and qn.startswith(BULK):
            if n in ('c_str', 'data') and 'ManagedVector' not in qn or n in ('front', 'begin', 'cbegin') and want != 'lv':
                return [self.ret(e, s, mk('addr', o), want)]
            if n in ('size', 'length'):
                v = s.tags.get(('csize', o))
                if v is not None:
                    return [self.ret(e, s, v, want)]
                if o.k == 'fld' and not self.dirty(s, o):
                    return [self.ret(e, s, mk('csize', o), want)]
            if n == 'resize' and a:
                r = Engine.hook(self, e, s, qn, n, o, a, want)
                s.tags[('csize', o)] = self.val(s, a[0])
                s.tags[('dirty', o)] = 1
                return r
            if n in ('operator=', 'assign', 'swap') and a and a[0].k in ('objat', 'addr'):
                c = self.content(s, self.bulkroot(a[0].a[0]))
                s.tags.pop(('csize', o), None)
                s.tags[('dirty', o)] = 1
                if c is not None:
                    s.tags[('content', o)] = c
                else:
                    s.tags.pop(('content', o), None)
        return Str.hook(self, e, s, qn, n, o, a, want)

    def construct(self, e, st, loc):
        r = Str.construct(self, e, st, loc)
        if e.get('cls', '').startswith(BULK):
            for s, l in r:
                s.tags[('isbulk', loc)] = 1
                a = [x for x in e.get('a', [])]
                if a and isinstance(s.mem.get(loc), T) and s.mem[loc].k == 'mkobj':
                    for x in s.mem[loc].a[1:]:
                        if isinstance(x, T) and x.k in ('addr', 'objat') and self.content(s, self.bulkroot(x.a[0])) is not None:
                            s.tags[('content', loc)] = self.content(s, self.bulkroot(x.a[0]))
        return r

    def dirty(self, s, o):
        return ('dirty', o) in s.tags

    def isbulk(self, s, loc):
        return loc.k == 'fld' and loc.a[0] == self.thisloc and loc.a[1] in self.bulks or ('isbulk', loc) in s.tags

    def describe(self, s, loc):
        r = self.bulkroot(loc)
        if r is not loc or self.isbulk(s, loc):
            return ('bulk', r)
        return ('value', self.load(s, loc))


def rawio(u, f):
    w = r = False
    for y in calls([f.get('body'), f.get('inits')]):
        q = y.get('qn') or ''
        if q.split('::')[-1] in ('write', 'put') and q.startswith(('std::basic_ostream', 'std::basic_iostream')):
            w = True
        if q.split('::')[-1] in ('read',) and q.startswith(('std::basic_istream', 'std::basic_iostream')):
            r = True
    return w, r


class PolIO(Policy):
    """helpers that transfer are followed"""
    maxdepth = 5

    def inline(self, eng, f, depth):
        return depth < self.maxdepth and (f['fn'] in eng.io or Policy.inline(self, eng, f, depth))


def transfers(c, us):
    pairs = {}
    for u in us:
        direct = {f['fn']: rawio(u, f) for f in u.fns.values() if inrepo(u, f)}
        reach = {}

        def io(i, seen=()):
            if i in reach or i in seen or i not in direct:
                return reach.get(i, (False, False))
            w, r = direct[i]
            for y in calls([u.fns[i].get('body'), u.fns[i].get('inits')]):
                x = io(y['fn'], seen + (i,))
                w, r = w or x[0], r or x[1]
            reach[i] = (w, r)
            return reach[i]
        own = {}
        for f in u.fns.values():
            if inrepo(u, f) and any(io(f['fn'])) and f.get('cls'):
                own[f['fn']] = opens(u, f) or any(opens(u, u.fns[y['fn']]) for y in calls(f.get('body')) if y['fn'] in u.fns and not any(io(y['fn'])) and inrepo(u, u.fns[y['fn']]))
        rootfs = [u.fns[i] for i, x in own.items() if x and not any(own.get(y['fn']) for y in calls(u.fns[i].get('body')))]
        u.io = {i for i in reach if any(reach[i])}
        for f in rootfs:
            w, r = reach[f['fn']]
            ct = u.types[f['clst']]
            yield u, f, w, r, ct


def opens(u, f):
    for y in nodes([f.get('body'), f.get('inits')], lambda y: y['k'] in ('ctor', 'call', 'construct')):
        q = y.get('qn') or ''
        if (y.get('cls') or '').startswith(FST) and y.get('a') or q.startswith(FST) and q.endswith('::open'):
            return True
    return False


FST = ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream')


def full(u, f, v):
    """options of the reader at value v"""
    def setup(eng, st, f_, args):
        for i, p in enumerate(f['p']):
            if u.types[p['t']] == 'bool':
                args[i] = C(v)
    return setup


def interp(u, f, setup=None):
    eng = E7(u, PolIO())
    eng.io = u.io
    eng.looped = set()
    rec = u.records.get(f['cls']) or {'fields': []}
    eng.fields = [x['n'] for x in rec['fields']]
    eng.bulks = {x['n'] for x in rec['fields'] if bare(u.types[x['t']]).startswith(BULK)}
    outs = [o for o in eng.analyse(f, setup) if o.k == 'ret']
    return eng, outs


def files(c):
    us = units.load(units.harness('own', 'core'), strict=False)
    fs = {}
    done = set()
    for u, f, w, r, ct in transfers(c, us):
        fs.setdefault((u.types[f['clst']], id(u)), []).append((u, f, w, r))
    for k, l in fs.items():
        if k[0] in done:
            continue
        done.add(k[0])
        W = [x for x in l if x[2] and not x[3]]
        R = [x for x in l if x[3] and not x[2]]
        for u, f, _, _ in W:
            for u2, g, _, _ in R:
                compare(c, u, f, g)


def compare(c, u, f, g):
    nm = '%s/%s' % (short(f['qn']), short(g['qn']).split('::')[-1])
    c.fn(f['qn'])
    c.fn(g['qn'])
    ew, ow = interp(u, f)
    er, orr = interp(u, g, full(u, g, 1))
    if not ow or not orr:
        raise units.ToolError('no normal exit of ' + nm)
    for a in ow:
        for b in orr:
            pair(c, u, f, g, nm, ew, a.st, er, b.st)
    e0, o0 = interp(u, g, full(u, g, 0))
    for b in o0:
        sw, sr = ow[0].st.tags.get('seq', ()), b.st.tags.get('seq', ())
        if len(sr) > len(sw):
            c.bad('files', nm + ': count', '%s reads more than %s writes' % (short(g['qn']), short(f['qn'])), sr[len(sw)][3])


def pair(c, u, f, g, nm, ew, sw, er, sr):
    W, R = sw.tags.get('seq', ()), sr.tags.get('seq', ())
    if ew.looped or er.looped:
        c.assume('transfers of %s made in loops are not compared one by one' % nm)
        return
    m = {}
    val = {}
    bulk = {}
    for i in range(max(len(W), len(R))):
        if i >= len(W) or i >= len(R):
            c.bad('files', nm + ': count', '%s transfers %d items where %s transfers %d' % (short(g['qn']), len(R), short(f['qn']), len(W)),
                  (W[i] if i < len(W) else R[i])[3])
            return
        (_, wv, wl, wat), (_, rv, rl, rat) = W[i], R[i]
        a, b = strip_all(wl), strip_all(subst(rl, m))
        if a != b:
            c.bad('files', '%s: length of item %d' % (nm, i), 'item %d is written with length %s and read with length %s' % (i + 1, show(wl), show(subst(rl, m))), rat)
        else:
            c.ok('files', '%s: length of item %d' % (nm, i))
        if wv[0] == 'value' and rv[0] == 'value':
            m[rv[1]] = wv[1]
            val.setdefault(wv[1], set()).add(rv[1])
        elif wv[0] == 'bulk':
            bulk[wv[1]] = (i, rat)
    for x in er.fields:
        l = mk('fld', mk('v', 'this'), x)
        if x not in PERSIST and not any(('value', q) == w[1] for w in W for q in (initial(ew, sw, l),)) and l not in bulk:
            continue
        if l in bulk or x in er.bulks:
            i, at = bulk.get(l, (None, where(u, f)))
            if i is None:
                if x in PERSIST:
                    c.bad('files', '%s: %s' % (nm, x), '%s is not written' % x, at)
            elif sr.tags.get(('content', l)) != i:
                c.bad('files', '%s: %s' % (nm, x), '%s does not get the contents that were written from it' % x, at)
            else:
                c.ok('files', '%s: %s' % (nm, x))
                n = whole(ew, er, sw, sr, l, esize(u, f, x))
                if n is not None and strip_all(n[0]) != strip_all(W[i][2] if n[1] else subst(R[i][2], {})):
                    c.bad('files', '%s: all of %s' % (nm, x), 'not all of %s is transferred: %s bytes of %s' % (x, show(W[i][2]), show(n[0])), at)
        else:
            v0 = initial(ew, sw, l)
            got = er.load(sr, l)
            if v0 in val and got in val[v0]:
                c.ok('files', '%s: %s' % (nm, x))
            elif x in PERSIST or v0 in val:
                c.bad('files', '%s: %s' % (nm, x), '%s does not get the value that was written from it' % x, where(u, g))


SIZES = {'double': 8, 'float': 4, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'short': 2, 'unsigned short': 2}


def esize(u, f, x):
    for q in (u.records.get(f['cls']) or {'fields': []})['fields']:
        if q['n'] == x:
            ty = u.types[q['t']]
            if x == '_data':
                ty = u.types[f['clst']]
            return SIZES.get(ty[ty.index('<') + 1:].split('>')[0].split(',')[0].strip()) if '<' in ty else None


def whole(ew, er, sw, sr, l, size):
    """(bytes that make up all of the container, whether in terms of the writer)"""
    if size is None:
        return None
    if l.a[1] == '_data':
        this = mk('v', 'this')
        return scale(mul(ew.load(sw, mk('fld', this, 'view_width')), ew.load(sw, mk('fld', this, 'view_height'))), size), True
    n = sr.tags.get(('csize', l))
    return (scale(n, size), False) if n is not None else None


def strip_all(t):
    if not isinstance(t, T):
        return t
    if t.k in ('ucast', 'cast'):
        return strip_all(t.a[-1] if isinstance(t.a[-1], T) else t.a[0])
    if t.k == 'lin':
        c, d = lin(t)
        r = C(c)
        for x, k in d.items():
            r = add(r, scale(strip_all(x), k))
        return r
    a = tuple(strip_all(x) for x in t.a)
    return t if a == t.a else mul(*a) if t.k == 'mul' else mk(t.k, *a)


def initial(eng, st, l):
    """value of the member when the function starts (writers do not change what they write)"""
    return eng.load(st, l)


# ---------------------------------------------------------------- caches of the distributed programs
def native(x):
    while x['k'] == 'cast':
        x = x['e']
    return x['k'] == 'int' and str(x['v']) in ('1', 'true', 'True')


class EC(Str):
    def norm(self, t):
        """locations in terms of the types of parameters, so that two functions can be compared"""
        if not isinstance(t, T):
            return t
        if t.k == 'v' and t in self.ptype:
            return mk('v', self.ptype[t])
        a = tuple(self.norm(x) for x in t.a)
        return t if a == t.a else mk(t.k, *a)

    def name(self, s, v):
        return tuple(p for x in flat(self.strof(s, v)) for p in ([C(ord(q)) for q in x.a[0]] if x.k == 'str' and isinstance(x.a[0], str) else [self.norm(x)]))

    def at(self, e):
        return '%s:%s' % (units.rel(self.curfile), e.get('l', 0))

    def construct(self, e, st, loc):
        r = Str.construct(self, e, st, loc)
        if e.get('cls') == 'richdem::Array2D' and e.get('a') and 'basic_string' in self.ty(e['a'][0]):
            if len(e['a']) > 1 and native(e['a'][1]):
                for s, l in r:
                    v = s.mem.get(loc)
                    for s2, q in self.args(e, e['a'][:1], s.copy()):
                        s.tags[('from', loc)] = self.name(s2, q[0])
        return r

    def member(self, l):
        return l.k == 'fld' and l.a[0] == mk('v', 'this')

    def hook(self, e, s, qn, n, o, a, want):
        if qn == 'std::make_pair':
            return [self.ret(e, s, mk('pair', *[self.norm(self.val(s, x)) for x in a]), want)]
        if qn == 'std::move' and a and a[0].k == 'objat':
            return [self.ret(e, s, a[0], want)]
        if o is not None and qn == 'richdem::Array2D::dumpData':
            self.saved.append((o, self.name(s, mk('objat', mk('fld', o, 'filename'))), self.at(e)))
            return [self.ret(e, s, C(0), want)]
        if o is not None and qn == 'richdem::Array2D::saveToCache' and a:
            self.saved.append((o, self.name(s, a[0]), self.at(e)))
            return [self.ret(e, s, C(0), want)]
        if o is not None and n in ('operator=', 'swap') and qn.startswith('richdem::Array2D') and a and a[0].k == 'objat':
            l = a[0].a[0]
            if ('from', l) in s.tags:
                self.loaded.append((o, s.tags[('from', l)], self.at(e)))
            elif self.member(l) and self.slot(o):
                self.kept.append((l, self.norm(o), self.at(e)))
            elif self.member(o) and self.slot(l):
                self.taken.append((o, self.norm(l), self.at(e)))
        return Str.hook(self, e, s, qn, n, o, a, want)

    def slot(self, l):
        return 'pair' in repr(l)


class PolC(Policy):
    def inline(self, eng, f, depth):
        if f['qn'].split('::')[-1] in ('dumpData', 'saveToCache') or depth >= 5:
            return False
        t = eng.u.types[f['ret']] if isinstance(f.get('ret'), int) else ''
        return f.get('cls') == eng.ownclass or f['qn'].startswith('richdem::Array2D::set') or 'basic_string' in t and '/programs/' in eng.u.file(f)


def caches(c, us):
    for u in us:
        done = set()
        by = {}
        for f in u.fns.values():
            if not inrepo(u, f) or not f.get('cls') or (f['qn'], f['line']) in done or '/programs/' not in u.file(f):
                continue
            if not any('Array2D' in u.types[x['t']] for x in (u.records.get(f['cls']) or {'fields': []})['fields']):
                continue
            done.add((f['qn'], f['line']))
            by.setdefault(f['cls'], []).append(f)
        for cls, l in by.items():
            rec = dict(saved=[], loaded=[], kept=[], taken=[])
            for f in l:
                q = {(y.get('qn') or '').split('::')[-1] for y in deepcalls(u, f)}
                ctor = nodes(f.get('body'), lambda y: y['k'] == 'ctor' and y.get('cls') == 'richdem::Array2D' and len(y.get('a') or []) > 1 and native(y['a'][1]))
                if not (q & {'dumpData', 'saveToCache', 'setCacheFilename', 'at', 'operator[]', 'find'} and (q & {'dumpData', 'saveToCache'} or any('std::map' in u.types[p['t']] for p in f['p'])) or ctor):
                    continue
                eng = EC(u, PolC())
                eng.ownclass = cls
                for k in rec:
                    setattr(eng, k, [])
                eng.ptype = {mk('v', '%s@%d' % (p['n'], p['d'])): bare(u.types[p['t']]) for p in f['p']}
                eng.analyse(f)
                for k in rec:
                    for x in getattr(eng, k):
                        if x not in rec[k]:
                            rec[k].append(x)
                if any(getattr(eng, k) for k in rec):
                    c.fn('%s (%s)' % (f['qn'], os.path.basename(os.path.dirname(u.file(f)))))
            agree(c, u, cls, 'cache', 'name', rec['saved'], rec['loaded'])
            agree(c, u, cls, 'retained', 'slot', rec['kept'], rec['taken'])


def deepcalls(u, f, depth=0):
    r = []
    for y in calls(f.get('body')):
        r.append(y)
        g = u.fns.get(y['fn'])
        if g is not None and depth < 2 and g.get('cls') == f.get('cls') and g is not f:
            r += deepcalls(u, g, depth + 1)
    return r


def text(n):
    return ''.join(chr(x.a[0]) if isc(x) else '<%s>' % show(x) for x in n) if isinstance(n, tuple) else show(n)


def agree(c, u, cls, kind, what, put, got):
    at = {}
    prog = units.rel(u.path if hasattr(u, 'path') else '')
    for m, n, w in put:
        g = 'caches'
        k = '%s %s %s %s' % (w.split(':')[0].split('/')[1] if '/' in w else '', cls, kind, m)
        if n in at and at[n] != m:
            c.bad(g, k, '%s: %s and %s are stored under the same %s %s' % (cls, show(at[n]), show(m), what, text(n)), w)
        else:
            c.ok(g, k + ' distinct')
        at.setdefault(n, m)
    names = {}
    for m, n, w in put:
        names.setdefault(m, set()).add(n)
    for m, n, w in got:
        k = '%s %s %s load %s' % (w.split(':')[0].split('/')[1] if '/' in w else '', cls, kind, m)
        if n not in names.get(m, ()):
            c.bad('caches', k, '%s loads %s from %s %s, where it was not stored (stored: %s)' % (cls, show(m), what, text(n), ', '.join(sorted(text(x) for x in names.get(m, ()))) or 'nowhere'), w)
        else:
            c.ok('caches', k)


# ---------------------------------------------------------------- messages
class EM(Engine):
    def hook(self, e, s, qn, n, o, a, want):
        if qn.startswith('cereal::') and n in ('operator()', 'operator&', 'operator<<', 'operator>>', 'process'):
            ps = tuple(self.param(s, x) for x in a)
            s.tags['arch'] = s.tags.get('arch', ()) + ps
            return [self.ret(e, s, mk('objat', o) if o is not None else C(0), want)]
        if qn in ('MPI_Probe', 'MPI_Iprobe', 'MPI_Mprobe') and a:
            st = next((x.a[0] for x in reversed(a) if x.k == 'addr'), None)
            if st is not None:
                f = fresh('source'), fresh('tag')
                s.mem[mk('fld', st, 'MPI_SOURCE')], s.mem[mk('fld', st, 'MPI_TAG')] = f
                s.tags['probed'] = f
                return [self.ret(e, s, C(0), want)]
        if qn == 'MPI_Get_count' and len(a) > 2 and a[2].k == 'addr':
            s.mem[a[2].a[0]] = fresh('count')
            return [self.ret(e, s, C(0), want)]
        if qn in ('MPI_Recv', 'MPI_Irecv') and len(a) > 4 and 'probed' in s.tags:
            self.rx.append((tuple(self.val(s, x) for x in a[3:5]) == s.tags['probed'], '%s:%s' % (units.rel(self.curfile), e.get('l', 0))))
        if n in ('unsetf', 'noskipws') and (not a or 1):
            s.tags['noskip'] = True
        if n in ('setf', 'skipws'):
            s.tags['noskip'] = False
        return Engine.hook(self, e, s, qn, n, o, a, want)

    def param(self, s, x):
        l = x.a[0] if x.k in ('objat', 'addr') else x
        for i, p in enumerate(self.ps):
            if repr(p).split('@')[0] in repr(l).replace('@', ' ').replace('(', ' ').replace(')', ' ').replace('.', ' ').split() or repr(p) in repr(l):
                return i
        return '?'


def messages(c, us):
    sides = {}
    for u in us:
        for f in u.fns.values():
            if not inrepo(u, f) or len(f['p']) < 2:
                continue
            arch = nodes(f.get('body'), lambda y: y['k'] == 'ctor' and (y.get('cls') or '').startswith('cereal::') and 'Archive' in y['cls'])
            if not arch:
                continue
            k = (f['qn'], f['line'])
            side = 'in' if 'Input' in arch[0]['cls'] else 'out'
            sides.setdefault(u.file(f), {}).setdefault(side, {}).setdefault(k, (u, f))
    for path, d in sides.items():
        seqs = {}
        for side in d:
            for k, (u, f) in d[side].items():
                c.fn(f['qn'])
                eng = EM(u, Policy())
                eng.rx = []
                eng.ps = [mk('v', '%s@%d' % (p['n'], p['d'])) for p in f['p']]
                outs = [o for o in eng.analyse(f) if o.k == 'ret']
                for good, at in eng.rx:
                    if good:
                        c.ok('messages', '%s receives what it measured' % f['qn'])
                    else:
                        c.bad('messages', '%s receives what it measured' % f['qn'], '%s measures one message and may receive another (source and tag are not those of the probed message)' % f['qn'], at)
                it = nodes(f.get('body'), lambda y: y['k'] in ('ctor', 'call') and 'istream_iterator' in (y.get('cls') or y.get('qn') or ''))
                if it:
                    if all(o.st.tags.get('noskip') for o in outs):
                        c.ok('messages', '%s copies all bytes' % f['qn'])
                    else:
                        c.bad('messages', '%s copies all bytes' % f['qn'], '%s copies the message through a formatted iterator, which drops bytes that are white space' % f['qn'], where(u, f))
                for o in outs:
                    seqs.setdefault(side, {}).setdefault(o.st.tags.get('arch', ()), where(u, f))
        if set(seqs) == {'in', 'out'}:
            for q in sorted(set(seqs['in']) | set(seqs['out']), key=str):
                if q in seqs['in'] and q in seqs['out'] and '?' not in q:
                    c.ok('messages', '%s order %s' % (units.rel(path), q))
                else:
                    c.bad('messages', '%s order' % units.rel(path), 'the %s side archives its parameters in the order %s, the other side never does' % ('receiving' if q in seqs['in'] else 'sending', q),
                          (seqs['in'] if q in seqs['in'] else seqs['out'])[q])


def records(c, us):
    for u in us:
        ser = {}
        for f in u.fns.values():
            if inrepo(u, f) and f['n'] in ('serialize', 'save', 'load') and f.get('cls') and len(f['p']) == 1 and 'Archive' in u.types[f['p'][0]['t']]:
                l = [y['qn'] for y in nodes(f['body'], lambda y: y['k'] == 'mem' and (y.get('qn') or '').startswith(f['cls'] + '::')) if y['f'] in {x['n'] for x in u.records[f['cls']]['fields']}]
                ser.setdefault(f['cls'], {}).setdefault(tuple(l), where(u, f))
        if not ser:
            continue
        prog = ''
        worker = [f for f in u.fns.values() if inrepo(u, f) and any((y.get('qn') or '') == 'CommGetTag' for y in calls(f['body']))]
        main = [f for f in u.fns.values() if f['n'] == 'main' and inrepo(u, f)]
        if not worker or not main:
            raise units.ToolError('no worker or main found')
        prog = os.path.basename(os.path.dirname(u.file(main[0])))
        wr = reach(u, worker, set())
        cr = reach(u, main, {f['fn'] for f in worker})
        ment = {}
        for role, ids in (('worker', wr), ('coordinator', cr)):
            for i in ids:
                f = u.fns[i]
                if f['n'] in ('serialize', 'save', 'load') and f.get('cls') in ser:
                    continue
                for y in nodes([f.get('body')], lambda y: y['k'] == 'mem' and (y.get('qn') or '').rsplit('::', 1)[0] in ser):
                    ment.setdefault(y['qn'], {}).setdefault(role, where(u, f, y.get('l')))
                for ini in f.get('inits') or [] if f['p'] and f.get('cls') and bare(u.types[f['p'][0]['t']]).split('<')[0] != f['cls'] else []:
                    if f.get('cls') in ser and ini.get('f'):
                        ment.setdefault('%s::%s' % (f['cls'], ini['f']), {}).setdefault(role, where(u, f))
        for cls, seqs in sorted(ser.items()):
            if len(seqs) != 1:
                c.bad('messages', '%s %s order' % (prog, cls), '%s is not archived alike in both directions: %s' % (cls, ' / '.join(','.join(x.split('::')[-1] for x in q) for q in seqs)), list(seqs.values())[0])
            arch = set(list(seqs)[0])
            for x in u.records[cls]['fields']:
                q = '%s::%s' % (cls, x['n'])
                m = ment.get(q, {})
                if q in arch or len(m) < 2:
                    c.ok('messages', '%s %s' % (prog, q))
                else:
                    c.bad('messages', '%s %s' % (prog, q), '%s is used by worker and coordinator (%s, %s) but is not part of the message' % (q, m['worker'], m['coordinator']), list(seqs.values())[0])


def reach(u, fs, stop):
    seen, work = set(), [f['fn'] for f in fs]
    while work:
        i = work.pop()
        if i in seen or i in stop or i not in u.fns:
            continue
        seen.add(i)
        f = u.fns[i]
        for y in calls([f.get('body'), f.get('inits')]):
            work.append(y['fn'])
    return seen


def run(c, tier):
    c.need('files', 15)
    c.need('caches', 8)
    c.need('messages', 30)
    files(c)
    us = units.load(units.programs(), strict=False)
    caches(c, us)
    messages(c, us)
    records(c, us)
