"""(a) Every function that chooses code by a stored data type (a switch or comparison on a GDALDataType value) is interpreted
with that value unknown: at each call or array declaration for an element type T, the data types still possible on the path
must be exactly T's own; each of the seven supported types must reach such code, and every path that reaches none must throw,
abort or return a failure, which its caller must not turn into success.  (b) Every instance of the mapping from element types
to data types is evaluated; the buffer and type handed to every GDAL read, write and create must agree.  (c) The Python type
tables, exported names and bound C++ classes are evaluated and compared by element type."""
import ast
import os
from common import *
import pyabs

RULE = __doc__
CODE = {'unsigned char': 1, 'unsigned short': 2, 'short': 3, 'unsigned int': 4, 'int': 5, 'float': 6, 'double': 7,
        'unsigned long': 12, 'long': 13, 'signed char': 14}
SUPPORTED = {t: k for t, k in CODE.items() if k <= 7}
NAME = {1: 'Byte', 2: 'UInt16', 3: 'Int16', 4: 'UInt32', 5: 'Int32', 6: 'Float32', 7: 'Float64', 8: 'CInt16', 9: 'CInt32',
        10: 'CFloat32', 11: 'CFloat64', 12: 'UInt64', 13: 'Int64', 14: 'Int8', 0: 'Unknown', 15: 'another type'}
GDT = 'GDALDataType'
ABORT = {'CommAbort', 'exit', '_exit', 'abort', 'quick_exit', 'MPI_Abort', 'terminate'}


def progfile(u, f):
    return inrepo(u, f) and ('/apps/' in u.file(f) or '/programs/' in u.file(f))


def ety(u, t):
    """the element type a raster type holds"""
    b = bare(t)
    for h in (ARR2 + '<', 'richdem::A2Array2D<', ARR3 + '<'):
        if b.startswith(h):
            return b[len(h):-1].strip()
    return None


def elem(u, g):
    """the element type function g is instantiated for"""
    for p in g['p']:
        e = ety(u, u.types[p['t']])
        if e in CODE:
            return e
    for t in (g.get('ta') or '').split(','):
        if t.strip() in CODE:
            return t.strip()
    return None


def gdt(u, e):
    return 't' in e and isinstance(e['t'], int) and bare(u.types[e['t']]) == GDT


def scrutinises(u, f):
    """does f branch on a stored data type?"""
    def hit(y):
        if y['k'] == 'switch':
            return bool(nodes(y['c'], lambda z: gdt(u, z)))
        return y['k'] == 'bin' and y.get('op') in ('==', '!=') and bool(nodes([y['a'], y['b']], lambda z: gdt(u, z)))
    return bool(nodes(f['body'], hit))


def family(u, f):
    """callees instantiated for several element types, and whether rasters of several element types are declared"""
    fam = {}
    for y in calls(f['body']):
        g = u.fns.get(y['fn'])
        if g is not None and progfile(u, g) and elem(u, g):
            fam.setdefault(g['qn'], set()).add(elem(u, g))
    return {q for q, s in fam.items() if len(s) > 1}


class E6(Engine):
    """remembers the data types looked at, and which programs ended"""
    def ev(self, e, st):
        r = Engine.ev(self, e, st)
        if gdt(self.u, e):
            for s, v in r:
                if isinstance(v, T) and not isc(v) and v not in s.tags.get('gdt', ()):
                    s.tags['gdt'] = s.tags.get('gdt', ()) + (v,)
        return r

    def hook(self, e, s, qn, n, o, a, want):
        if n in ABORT and o is None:
            v = self.val(s, a[0]) if a else C(1)
            if n in ('exit', '_exit', 'quick_exit') and isc(v) and v.a[0] == 0:
                self.done.append(s)
            return []
        f = self.u.fns.get(e.get('fn'))
        if f is not None and f['fn'] in self.failing:
            s.tags['failed'] = f['qn']
            return [(s, C(-1))]
        return Engine.hook(self, e, s, qn, n, o, a, want)


class Pol(Policy):
    maxdepth = 3
    maxstates = 40

    def inline(self, eng, f, depth):
        return bool(f.get('lam'))


def engine(u, on, failing=()):
    e = E6(u, Pol(), on)
    e.failing = failing
    e.done = []
    return e


def possible(eng, st, v):
    r = set()
    for k in range(16):
        s = st.copy()
        if eng.assume(s, eng.cmp('==', v, C(k), True), True):
            r.add(k)
    return r


def go(e, f):
    try:
        return e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])


def fails(u, f, o):
    return o.k in ('thr', 'throw') or o.v is not None and isinstance(o.v, T) and isc(o.v) and o.v.a[0] != 0


def dispatch(c, u, f):
    """-> whether f dispatches"""
    app = os.path.basename(u.src)[:-4]
    if app == 'main':
        app = os.path.basename(os.path.dirname(u.src))
    fam = family(u, f)
    decls = {ety(u, u.types[v['t']]) for y in nodes(f['body'], lambda y: y['k'] == 'decl') for v in y.get('v', []) if isinstance(v.get('t'), int)}
    many = len(decls & set(CODE)) > 1
    if not fam and not many:
        return False
    name = '%s %s' % (app, f['qn'])
    reached = {}
    bad = []

    def on(eng, ev, st):
        t = None
        if ev.kind in ('call', 'enter') and ev.node is not None and ev.node.get('fn') in u.fns:
            g = u.fns[ev.node['fn']]
            if g['qn'] in fam:
                t = elem(u, g)
                what = 'calls %s<%s>' % (short(g['qn']), t)
        elif ev.kind == 'decl' and many and isinstance(ev.node, dict) and isinstance(ev.node.get('t'), int):
            t = ety(u, u.types[ev.node['t']])
            what = 'declares %s' % short(bare(u.types[ev.node['t']]))
        if t not in CODE:
            return
        st.tags['hit'] = True
        sets = [possible(eng, st, v) for v in st.tags.get('gdt', ())]
        ok = [s for s in sets if s == {CODE[t]}]
        if ok:
            reached[t] = True
        else:
            s = min(sets, key=len) if sets else set(NAME)
            bad.append((t, what, s, ev.line))
    e = engine(u, on)
    outs = go(e, f)
    c.fn(name)
    if not reached and not bad:
        raise units.ToolError('the code chosen by %s was not reached' % name)
    for t, what, s, line in bad:
        c.bad('dispatch', '%s %s' % (name, t), '%s %s when the stored data type is %s' % (f['qn'], what, 'unrestricted' if len(s) > 8 else ' or '.join(NAME[k] for k in sorted(s))), where(u, f, line))
    for t in SUPPORTED:
        if t in reached:
            c.ok('dispatch', '%s %s' % (name, t))
        elif t not in [b[0] for b in bad]:
            c.bad('dispatch', '%s %s' % (name, t), '%s has no code for the data type %s' % (f['qn'], NAME[CODE[t]]), where(u, f))
    miss = [o for o in outs if 'hit' not in o.st.tags and o.st.tags.get('gdt')]
    wrong = [o for o in miss if not fails(u, f, o)] + [s for s in e.done if 'hit' not in s.tags and s.tags.get('gdt')]
    if wrong:
        c.bad('unsupported', name, '%s ends without a failure although no code was selected for the data type' % f['qn'], where(u, f))
    else:
        c.ok('unsupported', name)
    return True


def retint(u, f):
    return isinstance(f.get('ret'), int) and isint_t(u.types[f['ret']]) and f['qn'] != 'main'


def callers(c, u, ds):
    """a caller must not turn the failure of a dispatcher into success"""
    app = os.path.basename(u.src)[:-4]
    ids = {f['fn'] for f in ds}
    for f in u.fns.values():
        if not progfile(u, f) or f['fn'] in ids or not [y for y in calls(f['body']) if y['fn'] in ids]:
            continue
        e = engine(u, lambda eng, ev, st: None, ids)
        outs = go(e, f)
        hit = [o for o in outs if 'failed' in o.st.tags]
        key = '%s %s' % (app, f['qn'])
        c.fn(key)
        if not hit:
            raise units.ToolError('no path of %s ends after its dispatch' % key)
        if [o for o in hit if not fails(u, f, o)] or [s for s in e.done if 'failed' in s.tags]:
            c.bad('unsupported', key + ' result', '%s reports success although %s failed to handle the data type' % (f['qn'], hit[0].st.tags['failed']), where(u, f))
        else:
            c.ok('unsupported', key + ' result')


def programs(c):
    us = units.load(units.apps() + units.programs())

    def one(c, u):
        ds = [f for f in u.fns.values() if progfile(u, f) and not f.get('lam') and scrutinises(u, f)]
        ds = [f for f in ds if dispatch(c, u, f)]
        callers(c, u, [f for f in ds if retint(u, f)])
        return len(ds)
    ns = pmap(c, us, one)
    if sum(ns) < 10:
        raise units.ToolError('only %d functions dispatch on a stored data type' % sum(ns))


# ------------------------------------------------------------------ the inverse mapping and the transfers
class En(Engine):
    def hook(self, e, s, qn, n, o, a, want):
        if qn in ('std::type_info::operator==', 'std::type_info::operator!='):
            v = [s.mem.get(x.a[0] if x.k == 'objat' else x) for x in [o] + a if x is not None]
            if len(v) == 2 and all(x is not None and x.k == 'typeid' for x in v):
                return [(s, C((v[0] == v[1]) == (n == 'operator==')))]
        return Engine.hook(self, e, s, qn, n, o, a, want)


class Near(Policy):
    def inline(self, eng, f, depth):
        return Policy.inline(self, eng, f, depth) and depth <= 3 and (not f.get('cls') or f['qn'].endswith('GDALType') or f.get('lam'))


def native(c, u):
    fs = [f for f in u.fns.values() if f['qn'] == 'richdem::NativeTypeToGDAL' and f.get('body')]
    if len(fs) < 7:
        raise units.ToolError('the mapping from element types to data types was not found')
    for f in fs:
        t = f['ta']
        e = En(u, Near(), lambda *a: None)
        outs = go(e, f)
        key = 'element type %s' % t
        c.fn(f['qn'] + '<%s>' % t)
        rets = [o for o in outs if o.k not in ('thr', 'throw')]
        got = {o.v.a[0] if o.v is not None and isc(o.v) else None for o in rets}
        if got - {CODE.get(t)} or not got and t in SUPPORTED:
            c.bad('inverse', key, 'NativeTypeToGDAL<%s> yields %s' % (t, ', '.join(NAME.get(k, 'an unknown value') for k in got) or 'an error'), where(u, f))
        else:
            c.ok('inverse', key)


def pointee(u, e):
    """element type of the buffer expression e, looking through casts"""
    while True:
        t = u.types[e['t']] if isinstance(e.get('t'), int) else ''
        b = bare(t)
        if b.endswith('*') and bare(b[:-1]) in CODE:
            return bare(b[:-1])
        if e['k'] == 'cast':
            e = e['e']
            continue
        return None


def transfers(c, u):
    io = {}
    for f in u.fns.values():
        if not inrepo(u, f):
            continue
        for y in calls(f['body']):
            n = y.get('qn', '').rsplit('::', 1)[-1]
            if y.get('qn', '').startswith('GDAL') and n in ('RasterIO', 'Create'):
                io[id(y)] = f
    hosts = {f['fn']: f for f in io.values()}
    done = {}

    def one(c, fn):
        f = u.fns[fn]
        res = []

        def on(eng, ev, st):
            if ev.kind != 'call' or ev.node is None or len(eng.stack) > 1 and id(ev.node) not in io:
                return
            if id(ev.node) not in io or eng.active[-1] != fn:
                return
            n = ev.fn.rsplit('::', 1)[-1]
            a = [eng.val(st, x) for x in ev.args]
            if n == 'RasterIO':
                i, want = 8, pointee(u, ev.node['a'][5])
            else:
                i, want = 4, None
            v = a[i] if len(a) > i else None
            res.append((n, want, v.a[0] if isinstance(v, T) and isc(v) else None, ev.line))
        e = En(u, Near(), on)
        go(e, f)
        own = owner(u, f)
        key0 = '%s<%s>' % (short(f['qn']), own)
        c.fn(key0)
        if not res:
            c.bad('transfer', key0, '%s never reaches its transfer of elements of %s' % (short(f['qn']), own), where(u, f))
        for n, want, code, line in sorted(set(res), key=str):
            want = want or own
            if code is None or want is None:
                raise units.ToolError('the data type of a transfer in %s is not constant' % key0)
            key = '%s %s' % (key0, n)
            if CODE.get(want) != code or own and own != want:
                c.bad('transfer', key, '%s moves %s elements of a raster of %s as data type %s' % (short(f['qn']), want, own, NAME.get(code, code)), where(u, f, line))
            else:
                c.ok('transfer', key)
    pmap(c, sorted(hosts), one)


def owner(u, f):
    e = elem(u, f)
    if e:
        return e
    t = f.get('this') if isinstance(f.get('this'), int) else None
    if t is not None:
        return ety(u, u.types[t].rstrip(' *'))
    for y in nodes(f['body'], lambda y: y['k'] == 'this' and isinstance(y.get('t'), int)):
        e = ety(u, u.types[y['t']].rstrip('* ').replace('const', '').strip())
        if e:
            return e
    return None


# ------------------------------------------------------------------ Python
CNAME = {'int8': 'signed char', 'int16': 'short', 'int32': 'int', 'int64': 'long', 'uint8': 'unsigned char', 'uint16': 'unsigned short',
         'uint32': 'unsigned int', 'uint64': 'unsigned long', 'float32': 'float', 'float64': 'double'}


def bound_classes(c, u):
    """exported array class name -> element type, from the instantiations of the wrapper"""
    table = {}
    for f in u.fns.values():
        if not f.get('body') or not inrepo(u, f) or 'pywrapper' not in u.file(f):
            continue
        for y in calls(f['body']):
            g = u.fns.get(y['fn'])
            if g is None or not g.get('ta') or g['ta'] not in CODE or len(y['a']) < 2:
                continue
            s = nodes(y['a'][1], lambda z: z['k'] == 'str')
            pre = [z['v'] for z in nodes(g['body'], lambda z: z['k'] == 'str') if z.get('v') in ('Array2D_', 'Array3D_')]
            if s and pre:
                k = pre[0] + s[0]['v']
                t = g['ta']
                table[k] = (t, where(u, f, y.get('l')))
    # direct class_ declarations
    for f in u.fns.values():
        if not f.get('body') or not inrepo(u, f) or 'pywrapper' not in u.file(f):
            continue
        for y in nodes(f['body'], lambda z: z['k'] == 'ctor' and isinstance(z.get('t'), int) and 'class_<richdem::Array' in u.types[z['t']]):
            s = nodes(y['a'], lambda z: z['k'] == 'str') if y.get('a') else []
            t = u.types[y['t']]
            t = t[t.index('class_<') + 7:]
            e = t[t.index('<') + 1:t.index('>')]
            g = f.get('ta')
            if s and s[0].get('v', '').startswith('Array') and not s[0]['v'].endswith('_'):
                table[s[0]['v']] = (e, where(u, f, y.get('l')))
            elif g and g != e:
                c.bad('python', 'class %s' % g, 'the exported class for element type %s holds %s' % (g, e), where(u, f, y.get('l')))
    if len(table) < 8:
        raise units.ToolError('only %d exported array classes found' % len(table))
    return table


def python(c, u):
    table = bound_classes(c, u)
    path = os.path.join(units.REPO, 'wrappers/pyrichdem/richdem/__init__.py')
    wrap(c, path, table)
    loadgdal(c, path)
    # functions bound for an element type take rasters of it
    m = 0
    for f in u.fns.values():
        if not f.get('body') or not inrepo(u, f) or 'pywrapper' not in u.file(f) or (f.get('ta') or '') not in CODE:
            continue
        for d in calls(f['body']):
            if not d.get('qn', '').startswith('pybind11::') or not d['qn'].endswith('::def') or len(d['a']) < 2:
                continue
            s = nodes(d['a'][0], lambda y: y['k'] == 'str')
            r = nodes(d['a'][1], lambda y: y['k'] == 'ref' and y.get('dk') == 'fn' and y.get('fn') in u.fns)
            if not s or not r or nodes(d['a'][1], lambda y: y['k'] == 'lambda'):
                continue
            g = u.fns[r[0]['fn']]
            ts = [ety(u, u.types[p['t']]) for p in g['p'] if ety(u, u.types[p['t']])]
            if not ts:
                continue
            m += 1
            key = '%s %s' % (s[0].get('v'), f['ta'])
            if ts[0] != f['ta']:
                c.bad('python', key, 'the function exported as %s for %s rasters is instantiated for %s' % (s[0].get('v'), f['ta'], ts[0]), where(u, f, d.get('l')))
            else:
                c.ok('python', key)
    if m < 100:
        raise units.ToolError('only %d bindings by element type found' % m)


class PyI(pyabs.Interp):
    """element types of numpy arrays and of bands are concrete; what is wrapped remembers its class"""
    datatype = None

    def x_Attribute(self, e, st):
        if e.attr == 'DataType' and self.datatype:
            return [(pyabs.Eng(self.datatype), st)]
        r = pyabs.Interp.x_Attribute(self, e, st)
        return [(pyabs.Const(v.o.store) if isinstance(v, pyabs.Bound) and isinstance(v.o, pyabs.Obj) and v.o.cls == 'dtype' and v.name == 'name' else v, s) for v, s in r]

    def extern(self, path, args, kw, s, e):
        n = path.split('.')[-1]
        if n in ('str', 'repr') and args and isinstance(args[0], pyabs.Obj) and args[0].cls == 'dtype':
            return [(pyabs.Const(args[0].store), s)]
        if n.startswith(('Array2D_', 'Array3D_')):
            return [(pyabs.Obj('engine', n, kind='eng'), s)]
        if n == 'dtype' and args and isinstance(args[0], pyabs.Obj) and args[0].cls == 'dtype':
            return [(args[0], s)]
        return pyabs.Interp.extern(self, path, args, kw, s, e)


def wrap(c, path, table):
    """an array is wrapped as the exported class of its element type; an element type without one raises"""
    m = pyabs.Module(path)
    for cls, dim in (('rdarray', 'Array2D_'), ('rd3array', 'Array3D_')):
        I = PyI({'richdem': m})
        fn = I.find_method(cls, 'wrap')
        if fn is None:
            raise units.ToolError('%s.wrap is not defined' % cls)
        c.fn('%s.wrap' % cls)
        w = '%s:%d' % (units.rel(path), fn.node.lineno)
        for dt in list(CNAME) + ['complex64', 'complex128', 'bool', 'float16', 'object']:
            st = pyabs.St()
            st.env = {'__mod': m, '__cls': None}
            o = pyabs.Obj(cls, 'user:a')
            st.heap[o.id, 'dtype'] = pyabs.Obj('dtype', dt, kind='dtype')
            outs = [(k, v) for k, v, s in I.call_fn(fn, [], {}, st, selfv=o)]
            good = [v for k, v in outs if k == 'ret']
            key = '%s %s' % (cls, dt)
            names = {v.store if isinstance(v, pyabs.Obj) and v.cls == 'engine' else '?' for v in good}
            held = {table.get(n, (None,))[0] for n in names}
            if not good and (dt not in CNAME or cls == 'rd3array'):
                c.ok('python', key)
            elif not good:
                c.bad('python', key, '%s arrays of %s cannot be wrapped' % (cls, dt), w)
            elif held != {CNAME.get(dt, 0)} or not all(n.startswith(dim) for n in names):
                c.bad('python', key, '%s arrays of %s are wrapped as %s, which holds %s' % (cls, dt, ', '.join(sorted(names)), ', '.join(str(h) for h in held)), w)
            else:
                c.ok('python', key)


def loadgdal(c, path):
    m = pyabs.Module(path)
    f = m.fns.get('LoadGDAL')
    if f is None:
        raise units.ToolError('LoadGDAL is not defined')
    c.fn('richdem.LoadGDAL')
    for k, n in NAME.items():
        if k in (0, 15):
            continue
        I = PyI({'richdem': m})
        st = pyabs.St()
        st.env = {'__mod': m, '__cls': None}
        g = I.glob('gdal', m)
        I.datatype = (g.path if isinstance(g, pyabs.Eng) else 'osgeo.gdal') + '.GDT_' + n
        outs = I.call_fn(pyabs.Fn(f, m), [], {'filename': pyabs.Unk('name'), 'no_data': pyabs.Const(-1)}, st)
        good = [o for o in outs if o[0] == 'ret']
        key = 'LoadGDAL %s' % n
        w = '%s:%d' % (units.rel(path), f.lineno)
        if good and n.startswith('C'):
            c.bad('python', key, 'richdem.LoadGDAL accepts rasters of the unsupported data type %s' % n, w)
        elif not good and k <= 7:
            c.bad('python', key, 'richdem.LoadGDAL rejects rasters of the data type %s' % n, w)
        else:
            c.ok('python', key)


def run(c, tier):
    programs(c)
    u, = units.load(units.harness('gdal'))
    native(c, u)
    transfers(c, u)
    pw, = units.load([os.path.join(units.REPO, 'wrappers/pyrichdem/src/pywrapper.cpp')], strict=False)
    python(c, pw)
    c.need('dispatch', 70)
    c.need('inverse', 7)
    c.need('transfer', 20)
    c.need('python', 100)
