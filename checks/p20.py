"""Three layers are decided separately and composed.  (1) Python: every API function is interpreted for every option
combination (arrays abstract, names and flags concrete); on each path that returns, exactly one engine algorithm has run, on
the right storage, and the array returned is the one it wrote; names that are not offered raise on every path.  (2) Binding:
every exported binding name is resolved to the C++ function it refers to, and that function is interpreted down to the
algorithms it runs, with their topology and parameters, for each element type.  (3) Programs: PerformAlgorithm is interpreted
once per algorithm number; what has run when a result is saved must be the documented method, and numbers without a method
must not save.  The command line wrappers must save what the requested operation produced."""
import os
from common import *
import pyabs
from pyabs import Module, Interp, Const, Unk, Obj, Fn, Eng

RULE = __doc__
PKG = 'wrappers/pyrichdem/richdem/'
FILL = {'PriorityFlood_Original', 'PriorityFlood_Barnes2014', 'PriorityFlood_Zhou2016', 'PriorityFlood_Wei2018'}
FMS = {'FM_Tarboton', 'FM_Holmgren', 'FM_Freeman', 'FM_FairfieldLeymarie', 'FM_OCallaghan', 'FM_Orlandini', 'FM_SeibertMcGlynn'}
TAS = {'Terrain_Slope_RiseRun', 'Terrain_Slope_Percent', 'Terrain_Slope_Degree', 'Terrain_Slope_Radian', 'Terrain_Aspect',
       'Terrain_Curvature', 'Terrain_Planform_Curvature', 'Terrain_Profile_Curvature'}
LEAF = FILL | FMS | TAS | {'PriorityFloodEpsilon_Barnes2014', 'PriorityFlood_Barnes2014_max_dep', 'CompleteBreaching_Lindsay2016', 'Lindsay2016',
                           'ResolveFlatsEpsilon', 'FlowAccumulation', 'generate_perlin_terrain', 'TA_SPI', 'TA_CTI',
                           'HasDepressions', 'pit_mask', 'GetDepressionHierarchy', 'FillSpillMerge', 'barnes_flat_resolution_d8'}
TOPO = {'FM_FairfieldLeymarie', 'FM_OCallaghan', 'PriorityFlood_Original', 'PriorityFlood_Barnes2014', 'PriorityFloodEpsilon_Barnes2014',
        'CompleteBreaching_Lindsay2016', 'PriorityFlood_Barnes2014_max_dep', 'HasDepressions', 'pit_mask'}

# what a method name means: (algorithm, topology, exponent: None, 'x' = the user's, or a constant)
METHOD = {'Tarboton': ('FM_Tarboton', None, None), 'Dinf': ('FM_Tarboton', None, None), 'Dinfinity': ('FM_Tarboton', None, None),
          'Quinn': ('FM_Holmgren', None, 1.0), 'Holmgren': ('FM_Holmgren', None, 'x'), 'Freeman': ('FM_Freeman', None, 'x')}
for d in ('8', '4'):
    for n in ('FairfieldLeymarieD', 'Rho'):
        METHOD[n + d] = ('FM_FairfieldLeymarie', 'D' + d, None)
    for n in ('OCallaghanD', 'D'):
        METHOD[n + d] = ('FM_OCallaghan', 'D' + d, None)
TA = {'slope_riserun': 'Terrain_Slope_RiseRun', 'slope_percentage': 'Terrain_Slope_Percent', 'slope_degrees': 'Terrain_Slope_Degree',
      'slope_radians': 'Terrain_Slope_Radian', 'aspect': 'Terrain_Aspect', 'curvature': 'Terrain_Curvature',
      'planform_curvature': 'Terrain_Planform_Curvature', 'profile_curvature': 'Terrain_Profile_Curvature'}


class Leaves(Policy):
    """everything is followed down to the algorithms"""
    maxdepth = 9

    def inline(self, eng, f, depth):
        n = f['qn'].rsplit('::', 1)[-1]
        return n not in LEAF and n not in ('TerrainProcessor_body',) and Policy.inline(self, eng, f, depth)


def topo(u, f):
    ta = f.get('ta') or ''
    return 'D4' if 'D4' in ta else 'D8' if 'D8' in ta else None


def target(eng, ev):
    f = ev.info if isinstance(ev.info, dict) else eng.u.fns.get(ev.node.get('fn')) if ev.node is not None else None
    return f


def leaves(c, u, f, setup=None, pol=None):
    """-> [(kind, return value, ((leaf, topology, args), ...), state)] for every outcome of f"""
    cells = set()

    def on(eng, ev, st):
        if ev.kind == 'call' and ev.fn:
            n = str(ev.fn).rsplit('::', 1)[-1]
            if n in LEAF and 'richdem' in str(ev.fn):
                g = target(eng, ev)
                t = (n, topo(u, g) if g is not None and n in TOPO else None, tuple(arg(st, a) for a in ev.args or ()))
                if n in TAS:        # per cell: what the whole run uses
                    cells.add((n, None, ()))
                    return
                old = st.tags.get('__alg', ())
                if t not in old[-2:]:
                    st.tags['__alg'] = old + (t,)
    e = Engine(u, pol or Leaves(), on)
    try:
        outs = e.analyse(f, setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    return e, [(o.k, o.v, o.st.tags.get('__alg', ()) + tuple(cells), o.st) for o in outs]


def arg(st, a):
    if isinstance(a, T) and a.k == 'objat':
        return a.a[0]
    return a


def algs(ls):
    return {(n, t) for n, t, _ in ls}


def run(c, tier):
    pw, = units.load([os.path.join(units.REPO, 'wrappers/pyrichdem/src/pywrapper.cpp')], strict=False)
    table = bindings(c, pw)
    python(c, table)
    programs(c)
    c.need('binding', 150)
    c.need('api', 60)
    c.need('program', 12)


# ------------------------------------------------------------------ bindings
def bindings(c, u):
    """name -> identity (leaf, topology, exponent) agreed on by all element types"""
    table = {}
    jobs = []
    for f in u.fns.values():
        if not f.get('body') or not inrepo(u, f) or 'pywrapper' not in u.file(f):
            continue
        for d in calls(f['body']):
            if not d.get('qn', '').startswith('pybind11::') or not d['qn'].endswith('::def') or len(d['a']) < 2:
                continue
            s = nodes(d['a'][0], lambda y: y['k'] == 'str')
            r = nodes(d['a'][1], lambda y: y['k'] == 'ref' and y.get('dk') == 'fn' and y.get('fn') in u.fns)
            if s and r and not nodes(d['a'][1], lambda y: y['k'] == 'lambda'):
                jobs.append((s[0].get('v', ''), r[0]['fn'], f.get('ta') or '', d.get('l')))
    jobs = [j for j in jobs if expected(j[0]) is not None]
    res = pmap(c, jobs, lambda c, j: binding(c, u, *j))
    for (name, fn, ta, line), r in zip(jobs, res):
        table.setdefault(name, set()).add(r)
    if not jobs:
        raise units.ToolError('no bindings found')
    return table


def expected(name):
    """{acceptable (leaf, topology, exponent)} for an exported name, None when the name promises no particular algorithm"""
    if name.startswith(('FA_', 'FM_')) and name[3:] in METHOD:
        return {METHOD[name[3:]]}
    if name.startswith('TA_') and name[3:] in TA:
        return {(TA[name[3:]], None, None)}
    if name in ('rdFillDepressionsD8', 'rdFillDepressionsD4'):
        t = name[-2:]
        return {(n, t, None) for n in FILL if t == 'D8' or n in TOPO} | ({(n, None, None) for n in FILL - TOPO} if t == 'D8' else set())
    if name in ('rdPFepsilonD8', 'rdPFepsilonD4'):
        return {('PriorityFloodEpsilon_Barnes2014', name[-2:], None)}
    if name in ('rdBreachDepressionsD8', 'rdBreachDepressionsD4'):
        return {('CompleteBreaching_Lindsay2016', name[-2:], None)}
    if name == 'rdResolveFlatsEpsilon':
        return {('ResolveFlatsEpsilon', None, None)}
    if name == 'FlowAccumulation':
        return {('FlowAccumulation', None, None)}
    if name == 'generate_perlin_terrain':
        return {('generate_perlin_terrain', None, None)}
    return None


def identify(f, params, ls):
    """(leaf, topology, exponent) and a complaint"""
    main = [l for l in ls if l[0] != 'FlowAccumulation']
    if not main:
        main = ls
    if len(main) != 1:
        return None, 'runs %s' % (', '.join(l[0] for l in main) or 'no algorithm')
    n, t, a = main[0]
    x = None
    if n in ('FM_Holmgren', 'FM_Freeman') and a:
        x = a[-1]
    return (n, t, x), None


def binding(c, u, name, fn, ta, line):
    f = u.fns[fn]
    key = '%s %s' % (name, f.get('ta') or ta)
    c.fn(f['qn'] + '<%s>' % (f.get('ta') or ''))
    exp = expected(name)
    nm = f['qn'].rsplit('::', 1)[-1]
    if nm in LEAF:
        t = topo(u, f) if nm in TOPO else None
        got = (nm, t, 'x' if nm in ('FM_Holmgren', 'FM_Freeman') else None)
        if got in exp:
            c.ok('binding', key)
        else:
            c.bad('binding', key, 'the exported name %s runs %s' % (name, show(got)), where(u, f))
        return got
    params = {}

    def setup(eng, st, f, args):
        for i, a in enumerate(args):
            params[arg(st, a)] = i
    e, outs = leaves(c, u, f, setup)
    ok = True
    got = None
    n = 0
    for k, v, ls, st in outs:
        if k == 'throw':
            continue
        n += 1
        g, why = identify(f, params, ls)
        if g is None:
            c.bad('binding', key, 'the exported name %s %s on some path of %s' % (name, why, f['qn']), where(u, f))
            return None
        x = g[2]
        if x is not None:
            x = 'x' if x in params and params[x] == len(f['p']) - 1 else float(x.a[0]) if isinstance(x, T) and isc(x) else '?'
        got = (g[0], g[1], x)
        if got not in exp:
            c.bad('binding', key, 'the exported name %s runs %s' % (name, show(got)), where(u, f))
            return got
        if name.startswith('FA_'):
            fm = [l for l in ls if l[0] != 'FlowAccumulation'][0]
            fa = [l for l in ls if l[0] == 'FlowAccumulation']
            if len(fa) != 1 or len(fm[2]) < 2 or fm[2][0] not in params or params[fm[2][0]] != 0 or fa[0][2][0] != fm[2][1] or params.get(fa[0][2][1]) != 1:
                c.bad('binding', key, 'the exported name %s does not accumulate the proportions of its elevation model into its second argument' % name, where(u, f))
                return got
        elif name.startswith('FM_'):
            a = [l for l in ls][0][2]
            if [params.get(x) for x in a[:2]] != [0, 1]:
                c.bad('binding', key, 'the exported name %s does not pass its arguments on in order' % name, where(u, f))
                return got
    if not n:
        c.bad('binding', key, 'the exported name %s never succeeds' % name, where(u, f))
    else:
        c.ok('binding', key)
    return got


def show(g):
    if g is None:
        return 'something else'
    return g[0] + ('<%s>' % g[1] if g[1] else '') + (' with exponent %s' % g[2] if g[2] not in (None, 'x') else '')


# ------------------------------------------------------------------ Python
IGN = ('rdHash', 'rdCompileTime')


def engine_calls(s):
    return [x for x in s.ev if x[0] == 'engine' and x[1].split('.')[-1] not in IGN]


def python(c, table):
    path = os.path.join(units.REPO, PKG, '__init__.py')
    m = Module(path)
    I = Interp({'richdem': m})

    def call(name, **kw):
        st = pyabs.St()
        st.env = {'__mod': m, '__cls': None}
        if name not in m.fns:
            raise units.ToolError('%s is not defined in %s' % (name, PKG))
        outs = []
        seen = set()
        for k, v, s in I.call_fn(Fn(m.fns[name], m), [], kw, st):
            sg = (k, repr(v) if not isinstance(v, Obj) else v.store, repr([(x[1], [str(a) for a in x[2]]) for x in engine_calls(s)]))
            if sg not in seen:
                seen.add(sg)
                outs.append((k, v, s))
        return outs

    def dem():
        return Obj('rdarray', 'user:dem')

    def line(name):
        return '%s__init__.py:%d' % (PKG, m.fns[name].lineno)

    def valid(name, key, exp, out, ins, ret, **kw):
        """exp: acceptable identities; out/ins: index of the argument written / expected origin of the others; ret: is an array returned?"""
        c.fn('richdem.' + name)
        outs = call(name, **kw)
        good = [o for o in outs if o[0] == 'ret']
        key = '%s %s' % (name, key)
        if not good:
            c.bad('api', key, 'richdem.%s(%s) always raises' % (name, key), line(name))
            return
        for k, v, s in good:
            ec = engine_calls(s)
            if len(ec) != 1:
                c.bad('api', key, 'richdem.%s returns after running %s' % (key, ', '.join(x[1].split('.')[-1] for x in ec) or 'no engine function'), line(name))
                return
            fn = ec[0][1].split('.')[-1]
            ids = table.get(fn) or ({None} if expected(fn) is None else set())
            if not ids or not ids <= exp:
                c.bad('api', key, 'richdem.%s runs the engine function %s, which is %s' % (key, fn, ', '.join(sorted(show(g) for g in ids)) or 'not exported'), line(name))
                return
            a = ec[0][2]
            if any(x and x[2] == 'x' for x in exp):
                if len(a) < 3 or not (isinstance(a[2], Const) and a[2].v == 2.5):
                    c.bad('api', key, 'richdem.%s does not hand its exponent to the engine' % key, line(name))
                    return
            for i, w in ins.items():
                st_ = a[i].store if i < len(a) and isinstance(a[i], Obj) else None
                if st_ != w:
                    c.bad('api', key, 'richdem.%s does not compute from its input' % key, line(name))
                    return
            src = 'user:w' if 'weights' in kw else 'user:dem' if 'Fill' in name or 'Breach' in name or 'Flats' in name else None
            if src and not (isinstance(a[out], Obj) and a[out].store.endswith(src)):
                c.bad('api', key, 'richdem.%s does not start from the %s given' % (key, 'weights' if 'weights' in kw else 'elevations'), line(name))
                return
            if ret:
                if not isinstance(v, Obj) or not isinstance(a[out], Obj) or v.store != a[out].store:
                    c.bad('api', key, 'richdem.%s does not return the array the engine wrote' % key, line(name))
                    return
            elif not isinstance(a[out], Obj) or a[out].store != 'user:dem':
                c.bad('api', key, 'richdem.%s does not work in place' % key, line(name))
                return
        c.ok('api', key)

    def invalid(name, key, **kw):
        outs = call(name, **kw)
        key = '%s %s' % (name, key)
        if any(o[0] == 'ret' for o in outs):
            c.bad('api', key, 'richdem.%s does not raise an error' % key, line(name))
        else:
            c.ok('api', key)

    for t in ('D8', 'D4'):
        for ip in (False, True):
            for eps in (False, True):
                valid('FillDepressions', 'topology=%s epsilon=%s in_place=%s' % (t, eps, ip), expected(('rdPFepsilon' if eps else 'rdFillDepressions') + t), 0, {}, not ip,
                      dem=dem(), epsilon=Const(eps), in_place=Const(ip), topology=Const(t))
            valid('BreachDepressions', 'topology=%s in_place=%s' % (t, ip), expected('rdBreachDepressions' + t), 0, {}, not ip,
                  dem=dem(), in_place=Const(ip), topology=Const(t))
    for ip in (False, True):
        valid('ResolveFlats', 'in_place=%s' % ip, expected('rdResolveFlatsEpsilon'), 0, {}, not ip, dem=dem(), in_place=Const(ip))
    valid('FillDepressions', 'defaults', expected('rdFillDepressionsD8'), 0, {}, True, dem=dem())
    valid('BreachDepressions', 'defaults', expected('rdBreachDepressionsD8'), 0, {}, True, dem=dem())
    for bad in ('D6', 'd8', '', None):
        invalid('FillDepressions', 'topology=%r' % bad, dem=dem(), topology=Const(bad))
        invalid('BreachDepressions', 'topology=%r' % bad, dem=dem(), topology=Const(bad))
    offered = [n for n in METHOD if n != 'Dinfinity']
    for n in offered:
        x = {'exponent': Const(2.5)} if METHOD[n][2] == 'x' else {}
        for w, kw in (('', {}), (' weights', {'weights': Obj('rdarray', 'user:w')}), (' weights in_place', {'weights': Obj('rdarray', 'user:w'), 'in_place': Const(True)})):
            valid('FlowAccumulation', 'method=%s%s' % (n, w), {METHOD[n]}, 1, {0: 'user:dem'}, True, dem=dem(), method=Const(n), **x, **kw)
        valid('FlowProportions', 'method=%s' % n, {METHOD[n]}, 1, {0: 'user:dem'}, True, dem=dem(), method=Const(n), **x)
        if x:
            invalid('FlowAccumulation', 'method=%s without exponent' % n, dem=dem(), method=Const(n))
            invalid('FlowProportions', 'method=%s without exponent' % n, dem=dem(), method=Const(n))
    for bad in ('D6', 'quinn', '', None):
        for fn in ('FlowAccumulation', 'FlowProportions'):
            invalid(fn, 'method=%r' % bad, dem=dem(), method=Const(bad), exponent=Const(2.5))
    for w, kw in (('', {}), (' weights', {'weights': Obj('rdarray', 'user:w')}), (' weights in_place', {'weights': Obj('rdarray', 'user:w'), 'in_place': Const(True)})):
        valid('FlowAccumFromProps', w.strip() or 'defaults', {None, ('FlowAccumulation', None, None)}, 1, {0: 'user:props'}, True, props=Obj('rd3array', 'user:props'), **kw)
    for n, g in TA.items():
        valid('TerrainAttribute', 'attrib=%s' % n, {(g, None, None)}, 1, {0: 'user:dem'}, True, dem=dem(), attrib=Const(n))
        for k, v, s in call('TerrainAttribute', dem=dem(), attrib=Const(n), zscale=Const(3.5)):
            if k == 'ret':
                a = engine_calls(s)[0][2]
                if len(a) > 2 and isinstance(a[2], Const) and a[2].v == 3.5:
                    c.ok('api', 'TerrainAttribute zscale ' + n)
                else:
                    c.bad('api', 'TerrainAttribute zscale ' + n, 'richdem.TerrainAttribute does not hand its vertical scale to the engine', line('TerrainAttribute'))
    for bad in ('slope', 'Aspect', '', None):
        invalid('TerrainAttribute', 'attrib=%r' % bad, dem=dem(), attrib=Const(bad))
    cli(c, m)


# the command line wrappers: (operation of the package, its options, whether the result is a new array)
CLI = {'DepressionFilling': ('FillDepressions', {'epsilon': 'gradient'}), 'BreachDepressions': ('BreachDepressions', {}),
       'FlowAccumulation': ('FlowAccumulation', {'method': 'method', 'exponent': 'exponent'}),
       'TerrainAttribute': ('TerrainAttribute', {'attrib': 'attrib', 'zscale': 'zscale'})}


class CliInterp(Interp):
    """the package functions are events; the operations mark what they wrote"""
    def __init__(self, mods, api):
        Interp.__init__(self, mods)
        self.api = api

    def docall(self, f, args, kw, s, e):
        if isinstance(f, Fn) and f.mod is self.api:
            name = f.node.name
            names = [a.arg for a in f.node.args.args]
            kw = dict(zip(names, args), **kw)
            if name == 'LoadGDAL':
                s.ev.append(('load', kw.get('filename')))
                return [(Obj('rdarray', 'loaded'), s)]
            if name == 'SaveGDAL':
                s.ev.append(('save', kw.get('filename'), kw.get('rda')))
                return [(Const(None), s)]
            if name.startswith('_'):
                return [(Unk(name), s)]
            ip = kw.get('in_place')
            inp = kw.get('dem')
            s.ev.append(('op', name, kw))
            if isinstance(ip, Const) and ip.v:
                s.ev.append(('wrote', inp))
                return [(Const(None), s)]
            o = Obj('rdarray', self.new())
            s.ev.append(('wrote', o))
            return [(o, s)]
        return Interp.docall(self, f, args, kw, s, e)


def cli(c, api):
    path = os.path.join(units.REPO, PKG, 'cli.py')
    m = Module(path)
    I = CliInterp({'cli': m, 'richdem': api}, api)
    for name, (op, opts) in CLI.items():
        if name not in m.fns:
            raise units.ToolError('command %s is not defined' % name)
        st = pyabs.St()
        st.env = {'__mod': m, '__cls': None}
        c.fn('cli.' + name)
        w = '%scli.py:%d' % (PKG, m.fns[name].lineno)
        n = 0
        for k, v, s in I.call_fn(Fn(m.fns[name], m), [], {}, st):
            if k != 'ret':
                continue
            ops = [x for x in s.ev if x[0] == 'op']
            saves = [x for x in s.ev if x[0] == 'save']
            wrote = [x[1].store for x in s.ev if x[0] == 'wrote' and isinstance(x[1], Obj)]
            n += 1
            if len(ops) != 1 or ops[0][1] != op:
                c.bad('command', name, 'the command %s runs %s' % (name, ', '.join(x[1] for x in ops) or 'no operation'), w)
                break
            if not (isinstance(ops[0][2].get('dem'), Obj) and ops[0][2]['dem'].store == 'loaded'):
                c.bad('command', name, 'the command %s does not work on the elevation model it loaded' % name, w)
                break
            if not saves or not all(isinstance(x[2], Obj) and x[2].store in wrote for x in saves):
                c.bad('command', name, 'the command %s does not save what %s produced' % (name, op), w)
                break
            miss = [o for o, a in opts.items() if not optarg(ops[0][2].get(o), a)]
            if miss:
                c.bad('command', name, 'the command %s does not hand its option %s to %s' % (name, miss[0], op), w)
                break
        else:
            if n:
                c.ok('command', name)
            else:
                c.bad('command', name, 'the command %s never returns' % name, w)


def optarg(v, name):
    return isinstance(v, pyabs.Bound) and v.name == name


# ------------------------------------------------------------------ programs
PROGS = {'rd_flow_accumulation': {1: 'D8', 2: 'Rho8', 3: 'Quinn', 4: 'Holmgren', 5: 'Freeman', 6: 'Tarboton'},
         'rd_terrain_property': {1: 'slope_riserun', 2: 'slope_percentage', 3: 'slope_degrees', 4: 'slope_radians', 5: 'aspect',
                                 6: 'curvature', 7: 'planform_curvature', 8: 'profile_curvature'}}


def perform(u, app):
    fs = [f for f in u.fns.values() if '/apps/' + app in u.file(f) and f.get('body') and
          any(bare(u.types[p['t']]).startswith(ARR2 + '<') for p in f['p']) and any(bare(u.types[p['t']]) == 'int' for p in f['p'])]
    return fs


def programs(c):
    apps = {os.path.basename(p)[:-4]: p for p in units.apps()}
    us = units.load([apps[p] for p in PROGS])
    jobs = []
    for u, app in zip(us, PROGS):
        fs = perform(u, app)
        if not fs:
            raise units.ToolError('no algorithm dispatch found in ' + app)
        ks = list(PROGS[app]) + [0, 9, 10, -1] + ([7, 8] if app == 'rd_flow_accumulation' else [])
        jobs += [(u, app, f, k) for f in fs for k in ks]
    pmap(c, range(len(jobs)), lambda c, i: program(c, *jobs[i]))


class AppPol(Leaves):
    def inline(self, eng, f, depth):
        return Leaves.inline(self, eng, f, depth) and f.get('cls') not in (ARR2, ARR3)


def program(c, u, app, f, k):
    want = PROGS[app].get(k)
    exp = None
    if want:
        m = METHOD.get(want)
        exp = m or (TA[want], None, None)
    saves = []
    cells = set()
    pk = [i for i, p in enumerate(f['p']) if bare(u.types[p['t']]) == 'int'][0]
    fl = [i for i, p in enumerate(f['p']) if bare(u.types[p['t']]) in ('float', 'double')]
    extra = {}

    def setup(eng, st, f, args):
        args[pk] = C(k)
        for i in fl:
            extra[args[i]] = 'x'

    def on(eng, ev, st):
        if ev.kind == 'call' and ev.fn:
            n = str(ev.fn).rsplit('::', 1)[-1]
            if n in LEAF and 'richdem' in str(ev.fn):
                g = target(eng, ev)
                if n in TAS:
                    cells.add((n, None, ()))
                    return
                st.tags['__alg'] = st.tags.get('__alg', ()) + ((n, topo(u, g) if g is not None and n in TOPO else None, tuple(arg(st, a) for a in ev.args or ())),)
            if n == 'saveGDAL' and ev.loc is not None:
                saves.append((ev.loc, st.tags.get('__alg', ())))
    e = Engine(u, AppPol(), on)
    try:
        outs = e.analyse(f, setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    c.fn('%s %s<%s>' % (app, f['qn'], f.get('ta') or ''))
    key = '%s algorithm %d' % (app, k)
    w = where(u, f)
    fail = [o for o in outs if o.k != 'throw' and not (o.v is not None and isc(o.v) and o.v.a[0] != 0)]
    if exp is None:
        if saves or fail:
            c.bad('program', key, '%s reports success for algorithm number %d, which names no algorithm' % (app, k), w)
        else:
            c.ok('program', key)
        return
    if not saves:
        c.bad('program', key, '%s never saves a result for algorithm %d (%s)' % (app, k, want), w)
        return
    for loc, ls in saves:
        ls = ls + tuple(cells)
        main = [l for l in ls if l[0] != 'FlowAccumulation']
        got = main[0] if len(main) == 1 else None
        x = None
        if got and got[0] in ('FM_Holmgren', 'FM_Freeman'):
            x = got[2][-1]
            x = 'x' if x in extra or strip(x) in extra else float(x.a[0]) if isinstance(x, T) and isc(x) else '?'
        if not got or (got[0], got[1], x) != exp:
            c.bad('program', key, '%s runs %s for algorithm %d (%s)' % (app, show((got[0], got[1], x)) if got else 'no single algorithm', k, want), w)
            return
        if exp[0].startswith('FM_'):
            fa = [l for l in ls if l[0] == 'FlowAccumulation']
            if len(fa) != 1 or fa[0][2][0] != got[2][1] or fa[0][2][1] != loc:
                c.bad('program', key, '%s does not save the accumulation of the proportions of %s' % (app, want), w)
                return
    c.ok('program', key)


def strip(t):
    while isinstance(t, T) and t.k in ('cast', 'cv', 'conv') and t.a:
        t = t.a[-1]
    return t
