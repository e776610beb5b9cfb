"""Direction tables are compared with the geometry of the documented neighbourhood by constant evaluation of the typed
AST; every raster method that gives a raster dimensions while it holds data is interpreted with symbolic width and the
stored flat shifts compared with dy*width+dx; every arm of the direction-code converters is enumerated."""
import math
from ai import *
import units

RULE = __doc__
POS = {1: (-1, 0), 2: (-1, -1), 3: (0, -1), 4: (1, -1), 5: (1, 0), 6: (1, 1), 7: (0, 1), 8: (-1, 1)}   # 234/105/876
POS4 = {1: (-1, 0), 2: (0, -1), 3: (1, 0), 4: (0, 1)}                                                 # -2-/103/-4-
ARC = {(1, 0): 1, (1, 1): 2, (0, 1): 4, (-1, 1): 8, (-1, 0): 16, (-1, -1): 32, (0, -1): 64, (1, -1): 128}
TAU = {1: (1, 0), 2: (1, -1), 3: (0, -1), 4: (-1, -1), 5: (-1, 0), 6: (-1, 1), 7: (0, 1), 8: (1, 1)}
INV = {v: k for k, v in POS.items()}
INV4 = {v: k for k, v in POS4.items()}


def near(a, b, eps=1e-6):
    return abs(a - b) < eps


def ang(d):
    return math.atan2(-d[1], d[0]) % (2 * math.pi)


def angeq(a, b, eps=1e-5):
    d = (a - b) % (2 * math.pi)
    return min(d, 2 * math.pi - d) < eps


def const_init(u, e):
    """constant-evaluate an initialiser of the AST"""
    if e is None:
        return None
    k = e['k']
    if 'val' in e:
        return e['val']
    if k in ('int', 'flt', 'bool'):
        return e['v']
    if k == 'cast':
        v = const_init(u, e.get('e'))
        return v
    if k == 'init':
        r = [const_init(u, x) for x in e['a']]
        return r[0] if len(r) == 1 and isinstance(r[0], list) else r
    if k == 'un' and e.get('op') == '-':
        v = const_init(u, e['e'])
        return None if v is None else -v
    if k == 'bin':
        a, b = const_init(u, e['x']) if 'x' in e else None, const_init(u, e['y']) if 'y' in e else None
        if a is None or b is None:
            return None
        try:
            return {'+': a + b, '-': a - b, '*': a * b, '/': a / b}[e['op']]
        except Exception:
            return None
    return None


def flat(v):
    while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
        v = v[0]
    return v


def tables(c, us):
    seen = {}
    for u in us:
        for g in u.gq.values():
            if g.get('inroot') and 'val' in g:
                seen.setdefault(g['qn'], (g, u))

    def get(n, ln=None):
        x = seen.get('richdem::' + n)
        if x is None:
            return None, None
        v = flat(x[0]['val'])
        w = '%s:%s' % (units.rel(x[1].file(x[0])), x[0]['line'])
        if ln is not None and (not isinstance(v, list) or len(v) != ln):
            c.bad('table', 'table ' + n, 'table %s does not have %d entries' % (n, ln), w)
            return None, None
        return v, w

    def each(n, ln, exp, start=1):
        v, w = get(n, ln)
        if v is None:
            return
        for i in range(start, ln):
            e = exp(i)
            if near(float(v[i]), float(e)):
                c.ok('table', n)
            else:
                c.bad('table', 'table %s[%d]' % (n, i), 'entry %d of %s is %s; the documented neighbourhood requires %s' % (i, n, v[i], e), w)

    for sfx, P_, I_ in (('8', POS, INV), ('4', POS4, INV4)):
        ln = len(P_) + 1
        opp = {i: I_[(-P_[i][0], -P_[i][1])] for i in P_}
        each('d%sx' % sfx, ln, lambda i: P_[i][0] if i else 0, 0)
        each('d%sy' % sfx, ln, lambda i: P_[i][1] if i else 0, 0)
        each('d%s_inverse' % sfx, ln, lambda i: opp[i])
        each('d%sr' % sfx, ln, lambda i: math.hypot(*P_[i]))
        each('n%s_diag' % sfx, ln, lambda i: 1 if P_[i][0] and P_[i][1] else 0)
        for nm, d in (('WEST', (-1, 0)), ('NORTH', (0, -1)), ('EAST', (1, 0)), ('SOUTH', (0, 1))):
            v, w = get('D%s_%s' % (sfx, nm))
            if v is not None:
                if v == I_[d]:
                    c.ok('table', 'D%s_%s' % (sfx, nm))
                else:
                    c.bad('table', 'D%s_%s' % (sfx, nm), 'D%s_%s is %s, the step %s has code %s' % (sfx, nm, v, d, I_[d]), w)
    each('dr', 9, lambda i: math.hypot(*POS[i]))
    each('d8_arcgis', 9, lambda i: ARC[POS[i]] if i else 0, 0)
    v, w = get('SQRT2')
    if v is not None:
        (c.ok('table', 'SQRT2') if near(v, math.sqrt(2), 1e-12) else c.bad('table', 'SQRT2', 'SQRT2 is %r' % v, w))
    ring = [(1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0)]
    each('dinf_dx', 9, lambda i: ring[i][0], 0)
    each('dinf_dy', 9, lambda i: ring[i][1], 0)
    each('d8_to_dinf', 9, lambda i: ang(POS[i]))
    # Tarboton facets: e1 cardinal, e2 diagonal, angles from ac/af
    T = {n: get(n, 8) for n in ('dx_e1', 'dy_e1', 'dx_e2', 'dy_e2', 'ac', 'af')}
    if all(T[n][0] is not None for n in T):
        dx1, dy1, dx2, dy2, ac, af = (T[n][0] for n in ('dx_e1', 'dy_e1', 'dx_e2', 'dy_e2', 'ac', 'af'))
        facets(c, 'dinf_flowdirs', T['dx_e1'][1], range(8), dx1, dy1, dx2, dy2, af, ac)
    nm = [n for n in seen if n.endswith(('::d8x', '::d8y', '::d8_inverse', '::d4x', '::d4y', '::d4_inverse', '::dr', '::n8_diag'))]
    if len(nm) < 6:
        raise units.ToolError('direction tables not found: ' + repr(nm))


def facets(c, name, w, rg, dx1, dy1, dx2, dy2, af, ac):
    used = set()
    for n in rg:
        e1, e2 = (dx1[n], dy1[n]), (dx2[n], dy2[n])
        k = '%s facet %d' % (name, n)
        if e1 not in INV or e2 not in INV:
            c.bad('facet', k, 'facet %d of %s: %s/%s is not a pair of neighbours' % (n, name, e1, e2), w)
            continue
        good = (0 in e1) and (0 not in e2) and abs(e1[0] - e2[0]) + abs(e1[1] - e2[1]) == 1
        if ac is not None:
            good = good and angeq(ang(e1), ac[n] * math.pi / 2) and angeq(ang(e2), ac[n] * math.pi / 2 + af[n] * math.pi / 4)
        else:
            # facet n lies between direction codes n and n+1; af is the sense from e1 to e2
            good = good and {INV[e1], INV[e2]} == {n, n % 8 + 1}
            good = good and angeq(ang(e2), ang(e1) + af[n] * math.pi / 4)
        if (e1, e2) in used:
            good = False
        used.add((e1, e2))
        if good:
            c.ok('facet', k)
        else:
            c.bad('facet', k, 'facet %d of %s has edge cells %s and %s, which do not bound one facet with the angle factors given' % (n, name, e1, e2), w)


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                walk(v, f)


def locals_(c, us):
    done = set()
    for u in us:
        for f in u.fns.values():
            if not f.get('body') or '/verif/' in u.file(f):
                continue
            arr = {}

            def vis(x):
                if x.get('k') == 'decl':
                    for v in x.get('v', []):
                        if v.get('init') and ('[' in u.types[v['t']] or 'std::array' in u.types[v['t']]):
                            val = flat(const_init(u, v['init']))
                            if isinstance(val, list) and all(isinstance(q, (int, float)) for q in val):
                                arr[v['n']] = (val, v['l'])
            walk(f['body'], vis)
            if not arr:
                continue
            key = (u.file(f), f['qn'])
            if key in done:
                continue
            done.add(key)
            w = '%s:%s' % (units.rel(u.file(f)), f['line'])
            nm = f['qn'].split('::')[-1]
            need = ('dx_e1', 'dy_e1', 'dx_e2', 'dy_e2', 'af')
            if all(n in arr and len(arr[n][0]) == 9 for n in need):
                facets(c, nm, w, range(1, 9), *[arr[n][0] for n in need], None)
            for n, (val, l) in arr.items():
                if len(val) == 9 and sorted(val) == list(range(9)) and val[0] == 0 and n not in ('d8_order',):
                    # a renumbering of the eight codes: only TauDEM's is in use
                    for i in range(1, 9):
                        if val[i] == INV[TAU[i]]:
                            c.ok('renumber', '%s %s' % (nm, n))
                        else:
                            c.bad('renumber', '%s %s[%d]' % (nm, n, i), 'code %d is converted to %s, but its compass step %s has code %s' % (i, val[i], TAU[i], INV[TAU[i]]), w)
                if len(val) == 9 and n in ('d8_order',):
                    if sorted(val[1:]) == list(range(1, 9)):
                        c.ok('order', n)
                    else:
                        c.bad('order', '%s %s' % (nm, n), 'the scan order %s is not a permutation of the eight directions' % val, w)


class Pol(Policy):
    unroll = 12


class RE(Engine):
    """interprets the raster's own sizing methods instead of modelling them"""

    def samekey(self, st, a, b):
        return True if a is b else None     # element contents are irrelevant here

    def hook(self, e, s, qn, n, o, a, want):
        if o is not None and self.stack and qn in (ARR2 + '::loadData', ARR2 + '::loadNative', ARR2 + '::loadGDAL'):
            # checked as entry points of their own: they leave consistent dimensions and steps
            self.havoc(s, mk('fld', o, 'view_width'))
            self.havoc(s, mk('fld', o, 'view_height'))
            W = self.load(s, mk('fld', o, 'view_width'))
            S = mk('fld', o, '_nshift')
            self.havoc(s, S)
            s.mem[S] = mk('ilist', C(0), *[add(scale(W, POS[n][1]), C(POS[n][0])) for n in range(1, 9)])
            return [self.ret(e, s, C(0), want)]
        if qn in (ARR2 + '::resize', ARR2 + '::transpose', ARR2 + '::expand'):
            f = self.u.fns.get(e.get('fn'))
            if f is not None and f.get('body') and len(self.stack) < 6:
                return self.inline(e, s, f, a, o, want)
        return None


def rasters(c, us):
    done = set()
    for u in us:
        for f in u.fns.values():
            if f.get('cls') != ARR2 or not f.get('body'):
                continue
            key = (f['qn'], f['line'])
            if key in done:
                continue
            done.add(key)
            ev = []

            touch = {}

            def cb(eng, e, st):
                if e.kind in ('wr',) and e.loc is not None:
                    ev.append(e)
                if st.loops and e.loc is not None and e.loc.k in ('el', 'cnt') and isinstance(e.loc.a[0], T):
                    for i, x in st.loops:
                        touch.setdefault(i, set()).add(eng.root(e.loc))
            eng = RE(u, Pol(), cb)
            eng.pol.inline_raster = True
            try:
                outs = eng.analyse(f)
            except Budget:
                c.notes.append('budget exceeded in ' + f['qn'])
                continue
            wrote = {e.loc.a[0] for e in ev if e.loc.k == 'fld' and e.loc.a[1] == 'view_width'}
            if not wrote:
                continue
            c.fn(f['qn'] + ':' + str(f['line']))
            w = '%s:%s' % (units.rel(u.file(f)), f['line'])
            for o in outs:
                if o.k == 'thr':
                    continue
                hs = [e for e in o.st.events()]
                for R in wrote:
                    if R.k == 'v' and R is not eng.thisloc and not any(e.kind == 'ctor' for e in hs):
                        pass
                    dims = [e for e in hs if e.kind == 'wr' and e.loc is mk('fld', R, 'view_width')]
                    D = mk('fld', R, '_data')
                    data = [e for e in hs if e.kind in ('wr', 'cmod', 'rd', 'elem', 'call', 'enter', 'resize') and e.loc is not None and eng.under(e.loc, D)]
                    inloop = any(e.kind == 'loopend' and eng.root(R) in touch.get(id(e.node), ()) for e in hs)
                    if not dims or not (data or inloop):
                        continue
                    W = eng.load(o.st, mk('fld', R, 'view_width'))
                    S = mk('fld', R, '_nshift')
                    wrong = []
                    for n in range(1, 9):
                        got = eng.load(o.st, mk('el', S, C(n)))
                        want = add(scale(W, POS[n][1]), C(POS[n][0]))
                        if strip(got) is strip(want):
                            c.ok('shift', f['qn'] + '/%d' % len(f['p']))
                        else:
                            wrong.append('direction %d: %s instead of %s' % (n, show(got) if got.k in ('lin', 'c', 'ld', 'v', 'sym', 'ucast') else 'not set', show(want)))
                    if wrong:
                        c.bad('shift', '%s/%d nshift' % (f['qn'], len(f['p'])), 'after %s the raster has width %s but its flat neighbour steps are not those of that width (%s)' % (
                            f['qn'].split('::')[-1], show(W), '; '.join(wrong)), w)


def strip(t):
    return strip_ucast(t)


def convert(c, us):
    """switch- or table-based conversion from ArcGIS codes"""
    hit = 0
    for u in us:
        for f in u.fns.values():
            if f['qn'].split('::')[-1] != 'convert_arc_flowdirs_to_richdem_d8' or not f.get('body'):
                continue
            hit += 1
            c.fn(f['qn'])
            w = '%s:%s' % (units.rel(u.file(f)), f['line'])
            src, dst = f['p'][0], f['p'][1]
            for code in [0] + sorted(ARC.values()) + [3, 255]:
                class E(Engine):
                    def default(self, st, loc):
                        if loc.k == 'el' and loc.a[0].k == 'v' and loc.a[0].a[0].startswith(src['n'] + '@'):
                            return C(code)
                        return Engine.default(self, st, loc)
                res = []

                def cb(eng, e, st):
                    if e.kind == 'wr' and e.loc is not None and e.loc.k == 'el' and e.loc.a[0].k == 'v' and e.loc.a[0].a[0].startswith(dst['n'] + '@'):
                        res.append(e.val)
                    if e.kind == 'throw':
                        res.append('throw')
                eng = E(u, Policy(), cb)
                eng.analyse(f)
                vals = {(x if x == 'throw' else (x.a[0] if isc(x) else show(x))) for x in res}
                step = {v: k for k, v in ARC.items()}.get(code)
                exp = 'throw' if code in (3, 255) else (0 if code == 0 else INV[step])
                if vals == {exp}:
                    c.ok('convert', 'arcgis %d' % code)
                else:
                    c.bad('convert', 'arcgis %d' % code, 'ArcGIS code %d is converted to %s, expected %s' % (code, sorted(map(str, vals)), exp), w)
            break
    if not hit:
        raise units.ToolError('ArcGIS conversion routine not found')


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc'))
    ap = units.load([p for p in units.apps() if 'taudem' in p])
    tables(c, us)
    locals_(c, us + ap)
    rasters(c, us[:1] + us[1:2])
    convert(c, us)
    c.need('table', 80)
    c.need('facet', 8)
    c.need('shift', 24)
    c.need('convert', 10)
    c.need('renumber', 8)
    c.assume('positions of the direction codes are those documented at the head of constants.hpp')
