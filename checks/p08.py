"""Every function of the library and the distributed programs that opens, reads or writes a raster, cache or layout file is
interpreted with each such operation forked into one that succeeds and one that fails (a dataset that does not open is a null
pointer, a failed transfer an error code, a failed stream operation leaves the stream failed; what is written to a stream may
fail until it is flushed or closed).  A path on which an operation failed must not end in a normal return, unless its failure
is the function's result or is in a stream the caller owns, and must not use a dataset that did not open."""
import os
from common import *

RULE = __doc__
OPENS = ('GDALOpen', 'GDALOpenEx', 'GDALOpenShared', 'GDALCreate', 'GDALCreateCopy', 'GDALDriver::Create', 'GDALDriver::CreateCopy', 'GDALDataset::Open')
XFER = ('GDALRasterBand::RasterIO', 'GDALDataset::RasterIO', 'GDALRasterIO', 'GDALRasterIOEx', 'GDALRasterBand::ReadBlock', 'GDALRasterBand::WriteBlock',
        'GDALRasterBand::Fill', 'GDALFillRaster', 'GDALRasterBand::ReadRaster', 'GDALDataset::GetGeoTransform', 'GDALGetGeoTransform')
WHAT = {'RasterIO': 'a transfer of cells', 'GDALRasterIO': 'a transfer of cells', 'Fill': 'filling the file', 'GetGeoTransform': 'reading the geotransform'}
ERR = C(3)
FST = ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream')
STR = ('std::basic_ios::', 'std::basic_istream::', 'std::basic_ostream::', 'std::ios_base::') + tuple(f + '::' for f in FST)


class E8(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.ops = {}
        self.nulls = {}

    def fail(self, s, what):
        s.tags['failed'] = tuple(sorted(set(s.tags.get('failed', ())) | {what}))

    def op(self, e, what):
        self.ops[(self.curfile, e.get('l', 0), what)] = 1
        return '%s @%s:%s' % (what, units.rel(self.curfile), e.get('l', 0))

    def isfs(self, loc, s):
        return ('fs', loc) in s.tags

    def construct(self, e, st, loc):
        r = Engine.construct(self, e, st, loc)
        cls = e.get('cls', '')
        if cls in FST and not e.get('copy'):
            res = []
            for s, l in r:
                s.tags[('fs', loc)] = 'closed' if not e.get('a') else 'ok'
                if e.get('a'):
                    w = self.op(e, 'opening a file')
                    b = s.copy()
                    b.tags[('fs', loc)] = 'bad'
                    b.tags[('closed', loc)] = True
                    self.fail(b, w)
                    res.append((b, l))
                res.append((s, l))
            return res
        return r

    def hook(self, e, s, qn, n, o, a, want):
        if qn in OPENS:
            w = self.op(e, 'opening a dataset')
            b = s.copy()
            self.fail(b, w)
            return [self.ret(e, b, C(0), want), self.ret(e, s, mk('addr', mk('gd', fresh('ds'))), want)]
        if qn in XFER:
            w = self.op(e, WHAT.get(n, 'a transfer of cells'))
            b = s.copy()
            self.fail(b, w)
            if 'GetGeoTransform' in n:
                p = self.val(b, a[-1])
                if p.k == 'addr':
                    b.tags[('geo', p.a[0])] = w
            return [self.ret(e, b, ERR, want), self.ret(e, s, C(0), want)]
        if o is not None and n in ('operator=', 'assign') and ('geo', o) in s.tags:
            # given another value instead
            w = s.tags.pop(('geo', o))
            s.tags['failed'] = tuple(x for x in s.tags.get('failed', ()) if x != w)
        if o is not None and qn.startswith('GDAL') and o.k == 'deref' and isc(o.a[0]):
            self.nulls[(self.curfile, e.get('l', 0))] = qn
        if o is not None and qn.startswith(STR):
            if ('fs', o) not in s.tags:
                if n in ('open',) or n in ('read', 'write') or self.member(o):
                    s.tags[('fs', o)] = 'ok'
            if ('fs', o) in s.tags:
                r = self.fstream(e, s, qn, n, o, a, want)
                if r is not None:
                    return r
        return Engine.hook(self, e, s, qn, n, o, a, want)

    def stream(self, e, st, want):
        r = []
        for s, v in Engine.stream(self, e, st, want):
            o = v.a[0] if v.k == 'objat' else v
            if ('fs', o) not in s.tags and self.member(o):
                s.tags[('fs', o)] = 'ok'
            if ('fs', o) in s.tags:
                self.put(e, s, o)
                if nodes(e['a'][-1], lambda y: y.get('n') in ('endl', 'flush') and y['k'] != 'call'):
                    r += [(t, v) for t in self.flush(e, s, o)]
                    continue
            r.append((s, v))
        return r

    keepconst = True

    def loopkey(self, st):
        return (bool(st.tags.get('failed')),)

    def carry(self, entry, bs):
        io = lambda s: {k: v for k, v in s.tags.items() if k == 'failed' or isinstance(k, tuple) and k[0] in ('fs', 'pend')}
        return io(entry) != io(bs)

    def member(self, o):
        return o.k == 'fld' and o.a[0] == self.thisloc and o.a[1] in self.streams

    def put(self, e, s, o):
        if s.tags[('fs', o)] != 'bad':
            s.tags[('pend', o)] = self.op(e, 'writing a file')

    def flush(self, e, s, o):
        p = s.tags.pop(('pend', o), None)
        if p is None or s.tags[('fs', o)] == 'bad':
            return [s]
        b = s.copy()
        b.tags[('fs', o)] = 'bad'
        self.fail(b, p)
        return [b, s]

    def fstream(self, e, s, qn, n, o, a, want):
        k = s.tags[('fs', o)]
        if n == 'open':
            w = self.op(e, 'opening a file')
            b = s.copy()
            b.tags[('fs', o)] = 'bad'
            b.tags[('closed', o)] = True
            self.fail(b, w)
            s.tags[('fs', o)] = 'ok'
            return [self.ret(e, b, C(0), want), self.ret(e, s, C(0), want)]
        if n in ('good', 'operator bool', 'operator void *'):
            return [self.ret(e, s, C(0 if k == 'bad' else 1), want)]
        if n in ('fail', 'bad', 'operator!'):
            if n == 'bad' and s.tags.get(('closed', o)):
                return [self.ret(e, s, C(0), want)]
            return [self.ret(e, s, C(1 if k == 'bad' else 0), want)]
        if n == 'rdstate':
            return [self.ret(e, s, C(4 if k == 'bad' else 0), want)]
        if n == 'is_open':
            return [self.ret(e, s, C(0 if s.tags.get(('closed', o)) else 1), want)]
        if n == 'clear':
            s.tags[('fs', o)] = 'ok'
            return None
        if n == 'read':
            if k == 'bad':
                s.tags[('got', o)] = mk('short', fresh('n'))
                return [self.ret(e, s, mk('objat', o), want)]
            w = self.op(e, 'reading a file')
            b = s.copy()
            b.tags[('fs', o)] = 'bad'
            b.tags[('got', o)] = C(-1)
            s.tags[('got', o)] = self.val(s, a[1]) if len(a) > 1 else C(0)
            self.fail(b, w)
            r = []
            for t in (b, s):
                for l, v in self.readinto(e, t, a):
                    r.append(self.ret(e, l, mk('objat', o), want))
            return r
        if n == 'gcount':
            return [self.ret(e, s, s.tags.get(('got', o), fresh('g')), want)]
        if n in ('write', 'put'):
            self.put(e, s, o)
            return [self.ret(e, s, mk('objat', o), want)]
        if n in ('flush', 'close'):
            return [self.ret(e, t, mk('objat', o), want) for t in self.flush(e, s, o)]
        return None

    def readinto(self, e, t, a):
        """what is read is unknown"""
        p = self.val(t, a[0])
        if p.k == 'addr':
            self.havoc_loc(t, p.a[0])
        return [(t, None)]

    def havoc_loc(self, t, l):
        b = l
        for k in [k for k in t.mem if self.under(k, b)]:
            del t.mem[k]
        t.mem[l] = fresh('read')


class Pol8(Policy):
    """only helpers that take part in an operation are followed; a function that handles its own operation is decided by itself"""
    maxdepth = 6
    maxstates = 1500
    budget = 400000

    def inline(self, eng, f, depth):
        return f['fn'] in helpers(eng.u) and depth < self.maxdepth


def helpers(u):
    if hasattr(u, 'io_helpers'):
        return u.io_helpers
    tou, callers = set(), {}
    for f in u.fns.values():
        if not inrepo(u, f):
            continue
        for y in calls([f.get('body'), f.get('inits')]):
            callers.setdefault(y['fn'], set()).add(f['fn'])
            q = y.get('qn') or ''
            if isio(u, y) or q.startswith(STR):
                tou.add(f['fn'])
        if any(nodes(f.get('body'), lambda y: y['k'] == 'throw') for _ in (0,)) and any('CPLErr' in u.types[p['t']] or 'GDAL' in u.types[p['t']] for p in f['p']):
            tou.add(f['fn'])
    work = list(tou)
    while work:
        for g in callers.get(work.pop(), ()):
            if g not in tou:
                tou.add(g)
                work.append(g)
    r = set()
    for i in tou:
        f = u.fns[i]
        rt = u.types[f['rt']] if isinstance(f.get('rt'), int) else ''
        own = reaches_open(u, f)
        if not own or rt.endswith('*') or rt == 'bool' or 'CPLErr' in rt:
            r.add(i)
    u.io_helpers = r
    return r


def reaches_open(u, f, depth=0, seen=None):
    """opens something itself (or through helpers): what fails there is decided there"""
    seen = set() if seen is None else seen
    if f['fn'] in seen or depth > 6:
        return False
    seen.add(f['fn'])
    for y in calls([f.get('body'), f.get('inits')]):
        q = y.get('qn') or ''
        if q in OPENS or y['k'] == 'ctor' and y.get('cls') in FST:
            return True
        g = u.fns.get(y['fn'])
        if g is not None and inrepo(u, g) and reaches_open(u, g, depth + 1, seen):
            return True
    return False


def isio(u, y):
    q = y.get('qn') or ''
    return y['k'] == 'call' and (q in OPENS or q in XFER) or y['k'] == 'ctor' and y.get('cls') in FST and (y.get('a') or True)


def streams_of(u, f):
    r = u.records.get(f.get('cls') or '')
    return {x['n'] for x in (r or {}).get('fields', []) if bare(u.types[x['t']]).split('<')[0] in FST}


def run(c, tier):
    c.need('operation', 12)
    c.assume('GDAL reports a failed transfer through RasterIO; errors it defers to closing a dataset are not visible in the interface the library uses')
    us = units.load(units.harness('own', 'gdal') + units.srcs('GDAL'), strict=False) + units.load(units.programs(), strict=False)
    done = set()
    for u in us:
        for f in u.fns.values():
            k = (f['qn'], u.file(f), f['line'])
            if not inrepo(u, f) or k in done or 'cli_options' in u.file(f) or f['qn'].endswith('ProcessMemUsage'):
                continue
            st = streams_of(u, f)
            if not nodes([f.get('body'), f.get('inits')], lambda y: isio(u, y) or bool(st) and y['k'] == 'mem' and y.get('f') in st):
                continue
            done.add(k)
            name = short(f['qn'])
            c.fn(f['qn'])
            eng = E8(u, Pol8())
            eng.streams = st
            try:
                outs = eng.analyse(f)
            except Budget:
                raise units.ToolError('analysis budget exceeded in ' + f['qn'])
            for fl, l, w in eng.ops:
                c.ok('operation', '%s %s' % (name, w))
            rt = u.types[f['rt']] if isinstance(f.get('rt'), int) else ''
            params = {'%s@%d' % (p['n'], p['d']) for p in f['p']}
            for o in outs:
                if o.k != 'ret':
                    continue
                fl = list(o.st.tags.get('failed', ()))
                if fl and o.v is not None and (o.v == ERR and 'CPLErr' in rt or isc(o.v) and o.v.a[0] == 0 and (rt.endswith('*') or rt == 'bool')):
                    fl = []
                bad = [t for t, v in o.st.tags.items() if isinstance(t, tuple) and t[0] == 'fs' and v == 'bad']
                if fl and bad and all(t[1].k == 'v' and t[1].a[0] in params for t in bad) and all(x.split(' @')[0].endswith('a file') for x in fl):
                    fl = []
                if '~' in f['qn']:
                    fl = []     # a destructor cannot report
                for x in fl:
                    w, at = x.split(' @')
                    c.bad('operation', '%s: %s' % (name, w), '%s returns normally though %s failed' % (name, w), at)
                for t, v in o.st.tags.items():
                    if '~' in f['qn']:
                        break
                    if isinstance(t, tuple) and t[0] == 'pend' and not (t[1].k == 'v' and t[1].a[0] in params):
                        w, at = v.split(' @')
                        c.bad('operation', '%s: unflushed' % name, '%s returns before it is known whether %s succeeded' % (name, w), at)
            for (fl, l), q in eng.nulls.items():
                c.bad('operation', '%s: null %s' % (name, short(q)), '%s calls %s on a dataset that did not open' % (name, short(q)), '%s:%s' % (units.rel(fl), l))
    python(c)


def python(c):
    """the result of writing cells from Python is not discarded"""
    import ast
    path = os.path.join(units.REPO, 'wrappers/pyrichdem/richdem/__init__.py')
    tree = ast.parse(open(path).read())
    exc = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'UseExceptions' for x in ast.walk(tree))
    used = set()
    for x in ast.walk(tree):
        if isinstance(x, (ast.If, ast.While, ast.Assert)):
            used |= {y.id for y in ast.walk(x.test) if isinstance(y, ast.Name)}
    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        for x in ast.walk(fn):
            lost = None
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                lost = x.value
            elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and not any(isinstance(t, ast.Name) and t.id in used for t in x.targets):
                lost = x.value
            calls_ = [y for y in ast.walk(x) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('WriteArray', 'WriteRaster')]
            if isinstance(x, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try, ast.While)):
                continue
            for y in calls_:
                if y is lost and not exc:
                    c.bad('operation', 'python %s: writing cells' % fn.name, 'richdem.%s discards the result of writing the cells' % fn.name,
                          'wrappers/pyrichdem/richdem/__init__.py:%d' % y.lineno)
                else:
                    c.ok('operation', 'python ' + fn.name)
