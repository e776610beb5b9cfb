"""C++: every public operation is interpreted with its callees inlined; the set of parameters it may write (elements, size,
markers, records), on any path, must be contained in the interface table.  Parameters that are written only on request
(alter_elevations, alter) must not be written when the request is constant false.  A function that the table does not know
may write whatever it does not take by const reference.  Python: every API function is interpreted for all option
combinations; an engine argument the binding takes by non-const reference, an element store, or an attribute assignment must
not reach the storage of an array that the call was not asked to work on in place."""
import os
from common import *
from p04 import E4
import p05
import p20
import pyabs
from pyabs import Module, Interp, Const, Unk, Obj, Fn

RULE = __doc__
NONE = set()
# positions an operation may write; None: the table does not constrain the function
WRITES = {'HasDepressions': NONE, 'Perimeter': NONE, 'dem_surface_area': NONE, 'FillSpillMerge': {3, 4}, 'GetDepressionHierarchy': {1, 2},
          'GetFlatMask': {1, 2}, 'TA_SPI': {2}, 'TA_CTI': {2}, 'ResetDH': {0}, 'LastLayer': {0}, 'Lindsay2016': {0}, 'ResolveFlatsEpsilon': {0},
          'PriorityFloodWatersheds_Barnes2014': {0, 1}, 'barnes_flat_resolution_d8': {0, 1}, 'PriorityFloodFlowdirs_Barnes2014': {1},
          'pit_mask': {1}, 'BucketFill': {1, 4}, 'BucketFillFromEdges': {1}, 'FlowAccumulation': {1}, 'd8_flow_directions': {1}, 'd8_flow_accum': {1},
          'dinf_flow_directions': {1}, 'dinf_upslope_area': {1}, 'convert_arc_flowdirs_to_richdem_d8': {1}, 'FindFlats': {1},
          'resolve_flats_barnes_dinf': {1}, 'FillDepressions': {0}, 'FillDepressionsEpsilon': {0}, 'BreachDepressions': {0},
          'CompleteBreaching_Lindsay2016': {0}, 'd8_upslope_cells': {1}, 'd8_slope': {1}, 'd8_SPI': {2}, 'd8_CTI': {2}}
PREFIX = {'PriorityFlood': {0}, 'FM_': {1}, 'FA_': {1}, 'TA_': {1}}
# parameter -> position it releases for writing when true
ASK = {('PriorityFloodWatersheds_Barnes2014', 'bool'): {0}, ('barnes_flat_resolution_d8', 'bool'): {0}}


def allowed(n):
    if n in WRITES:
        return WRITES[n]
    for p, w in PREFIX.items():
        if n.startswith(p):
            return w
    return None


class Pol(p05.Pol):
    pass


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat'))
    jobs = []
    for k, u in enumerate(us):
        for f in roots(u):
            if f.get('cls') in (ARR2, ARR3):
                continue
            n = f['qn'].rsplit('::', 1)[-1]
            ask = [i for i, p in enumerate(f['p']) if (n, bare(u.types[p['t']])) in ASK]
            for i in ask:
                jobs.append((k, f['fn'], i))
            if not ask:
                jobs.append((k, f['fn'], None))
            else:
                jobs.append((k, f['fn'], -1))
    pmap(c, jobs, lambda c, j: cxx(c, us[j[0]], us[j[0]].fns[j[1]], j[2]))
    python(c)
    c.need('parameter', 60)
    c.need('api', 40)


def cxx(c, u, f, ask):
    n = f['qn'].rsplit('::', 1)[-1]
    ok = allowed(n)
    tys = [u.types[p['t']] for p in f['p']]
    if ok is None:
        ok = {i for i, t in enumerate(tys) if not (t.startswith('const') or ' const' in t)}
    free = ok
    if ask is not None and ask >= 0:
        free = ok - ASK[(n, bare(tys[ask]))]
    params = {}
    wr = {}

    def setup(eng, st, f, args):
        if ask is not None and ask >= 0:
            args[ask] = C(0)
        for i, a in enumerate(args):
            if isinstance(a, T) and a.k == 'objat':
                params[a.a[0]] = i

    def on(eng, ev, st):
        if ev.kind in ('wr', 'setall', 'resize', 'setattr') and ev.loc is not None:
            r = eng.root(ev.loc)
            if r in params:
                wr.setdefault(params[r], evwhere(ev) + ' in ' + fname(ev))
    e = E4(u, Pol(), on)
    try:
        e.analyse(f, setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))
    for i in set(params.values()):
        key = '%s parameter %d%s' % (short(f['qn']), i, '' if ask is None or ask < 0 else ' not asked')
        if i in wr and i not in free:
            c.bad('parameter', key, '%s modifies its %s argument%s, which it only reads' % (
                short(f['qn']), f['p'][i]['n'] or i, '' if free == ok else ' although it was not asked to'), wr[i])
        else:
            c.ok('parameter', key)


# ------------------------------------------------------------------ Python
def binding_writes(u):
    """exported name -> positions taken by non-const reference by some exported overload"""
    t = {}
    for f in u.fns.values():
        if not f.get('body') or not inrepo(u, f) or 'pywrapper' not in u.file(f):
            continue
        for d in calls(f['body']):
            if not d.get('qn', '').startswith('pybind11::') or not d['qn'].endswith('::def') or len(d['a']) < 2:
                continue
            s = nodes(d['a'][0], lambda y: y['k'] == 'str')
            if not s:
                continue
            w = t.setdefault(s[0].get('v', ''), set())
            for g in nodes(d['a'][1], lambda y: y['k'] in ('ref', 'lambda') and y.get('fn') in u.fns):
                for i, p in enumerate(u.fns[g['fn']]['p']):
                    ty = u.types[p['t']]
                    if ty.endswith('&') and not ty.startswith('const') and not ty.endswith('&&'):
                        w.add(i)
    return t


class PI(Interp):
    pass


def python(c):
    u, = units.load([os.path.join(units.REPO, 'wrappers/pyrichdem/src/pywrapper.cpp')], strict=False)
    wtab = binding_writes(u)
    path = os.path.join(units.REPO, p20.PKG, '__init__.py')
    m = Module(path)
    I = Interp({'richdem': m})

    def one(name, key, free, fresh=False, **kw):
        """free: the user arrays this call may write"""
        if name not in m.fns:
            raise units.ToolError('%s is not defined' % name)
        st = pyabs.St()
        st.env = {'__mod': m, '__cls': None}
        c.fn('richdem.' + name)
        key = '%s %s' % (name, key)
        w = '%s__init__.py:%d' % (p20.PKG, m.fns[name].lineno)
        bad = None
        n = 0
        for k, v, s in I.call_fn(Fn(m.fns[name], m), [], kw, st):
            n += k == 'ret'
            for ev in s.ev:
                hit = []
                if ev[0] == 'engine':
                    fn = ev[1].split('.')[-1]
                    pos = wtab.get(fn)
                    for i, a in enumerate(ev[2]):
                        if isinstance(a, Obj) and (pos is None or i in pos):
                            hit.append((a.store, ev[-1], 'hands it to %s' % fn))
                elif ev[0] == 'store':
                    hit.append((ev[1], ev[-1], 'stores into it'))
                elif ev[0] == 'unknown-call':
                    for a in ev[1] or ():
                        hit.append((a, ev[-1], 'hands it to an unknown function'))
                elif ev[0] == 'setattr' and isinstance(ev[1], Obj) and not (ev[1].store in owners(kw) and ev[1].id not in [o.id for o in kw.values() if isinstance(o, Obj)]):
                    hit.append((ev[1].store, ev[-1], 'sets its attribute %s' % ev[2]))
                for stg, line, how in hit:
                    if isinstance(stg, str) and stg.startswith('user:') and stg not in free:
                        bad = bad or (stg[5:], line, how)
        if bad:
            c.bad('api', '%s %s' % (key, bad[0]), 'richdem.%s: the argument %s is only an input, but the call %s' % (key, bad[0], bad[2]),
                  '%s__init__.py:%s' % (p20.PKG, bad[1]))
        else:
            c.ok('api', key)

    def owners(kw):
        return [o.store for o in kw.values() if isinstance(o, Obj)]

    def A(x, cls='rdarray'):
        return Obj(cls, 'user:' + x)
    for t in ('D8', 'D4'):
        for ip in (False, True):
            fr = {'user:dem'} if ip else set()
            for eps in (False, True):
                one('FillDepressions', '%s epsilon=%s in_place=%s' % (t, eps, ip), fr, dem=A('dem'), epsilon=Const(eps), in_place=Const(ip), topology=Const(t))
            one('BreachDepressions', '%s in_place=%s' % (t, ip), fr, dem=A('dem'), in_place=Const(ip), topology=Const(t))
    for ip in (False, True):
        one('ResolveFlats', 'in_place=%s' % ip, {'user:dem'} if ip else set(), dem=A('dem'), in_place=Const(ip))
    for n in ('FillDepressions', 'BreachDepressions', 'ResolveFlats'):
        one(n, 'defaults', set(), dem=A('dem'))
    for n in p20.METHOD:
        if n == 'Dinfinity':
            continue
        x = {'exponent': Const(2.5)} if p20.METHOD[n][2] == 'x' else {}
        one('FlowProportions', n, set(), dem=A('dem'), method=Const(n), **x)
        for w, fr, kw in (('', set(), {}), (' weights', set(), {'weights': A('weights')}), (' weights in_place=False', set(), {'weights': A('weights'), 'in_place': Const(False)}),
                          (' weights in_place', {'user:weights'}, {'weights': A('weights'), 'in_place': Const(True)}), (' in_place', set(), {'in_place': Const(True)})):
            one('FlowAccumulation', n + w, fr, dem=A('dem'), method=Const(n), **x, **kw)
    for w, fr, kw in (('', set(), {}), (' weights', set(), {'weights': A('weights')}), (' weights in_place=False', set(), {'weights': A('weights'), 'in_place': Const(False)}),
                      (' weights in_place', {'user:weights'}, {'weights': A('weights'), 'in_place': Const(True)})):
        one('FlowAccumFromProps', 'props' + w, fr, props=A('props', 'rd3array'), **kw)
    for n in p20.TA:
        one('TerrainAttribute', n, set(), dem=A('dem'), attrib=Const(n))
    if 'get_depression_hierarchy' in m.fns:
        one('get_depression_hierarchy', '', {'user:labels'}, dem=A('dem'), labels=A('labels'))
    if 'fill_spill_merge' in m.fns:
        one('fill_spill_merge', '', {'user:wtd', 'user:deps'}, dem=A('dem'), labels=A('labels'), flowdirs=A('flowdirs'), deps=Obj('list', 'user:deps', 'list'), wtd=A('wtd'))
    if 'rdShow' in m.fns:
        one('rdShow', '', set(), rda=A('rda'))
        one('rdShow', 'ndarray', set(), rda=A('rda', 'np.ndarray'))
    one('SaveGDAL', '', set(), filename=Const('x'), rda=A('rda'))
