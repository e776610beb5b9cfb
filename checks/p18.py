"""(1) The comparison of every element type held by a std::priority_queue of the sources is decided over all order patterns of
its fields (field comparisons and NaN tests are the only primitives, so three ranks plus NaN per field represent every
input): strict weak order, lowest elevation first, NaN lowest, ties by insertion number in the promised direction; all
relational operators of a record agree with each other.  (2) The insertion number is proved to grow with every insertion
and is stored without narrowing.  (3) Each cell queued with a priority gets the current elevation of that very cell."""
import itertools
from common import *

RULE = __doc__
NAN = float('nan')


class Undecided(Exception):
    pass


class Rank:
    """interpreter of comparison functions over field ranks"""

    def __init__(self, u):
        self.u = u

    def call(self, f, this, args):
        env = {p['d']: a for p, a in zip(f['p'], args)}
        env['this'] = this
        r = self.stmt(f['body'], env)
        if r is None:
            raise Undecided(f['qn'])
        return r[0]

    def stmt(self, s, env):
        k = s['k']
        if k == 'block':
            for t in s['s']:
                if t is not None:
                    r = self.stmt(t, env)
                    if r is not None:
                        return r
            return None
        if k == 'return':
            return (self.ev(s['e'], env),)
        if k == 'if':
            t = self.ev(s['c'], env)
            b = s.get('a') if t else s.get('b')
            if 't' in s and isinstance(s['t'], dict):
                b = s.get('t') if t else s.get('e')
            return self.stmt(b, env) if b else None
        if k == 'decl':
            for v in s['v']:
                env[v['d']] = self.ev(v['init'], env) if v.get('init') else None
            return None
        if k in ('null', 'empty'):
            return None
        if k == 'expr':
            self.ev(s['e'], env)
            return None
        raise Undecided(k)

    def ev(self, e, env):
        k = e['k']
        if k == 'this':
            return env['this']
        if k == 'ref':
            if e['d'] in env:
                return env[e['d']]
            raise Undecided('ref ' + e.get('n', '?'))
        if k == 'mem':
            b = self.ev(e['b'], env)
            if not isinstance(b, dict):
                raise Undecided('member')
            return b[e['f']]
        if k in ('int', 'flt', 'bool'):
            return e['v']
        if k in ('cast', 'paren', 'tmp', 'bind'):
            return self.ev(e['e'], env)
        if k == 'un':
            v = self.ev(e['e'], env)
            if e['op'] == '!':
                return not v
            if e['op'] == '-':
                return -v
            if e['op'] == '*':
                return v
            raise Undecided(e['op'])
        if k == 'cond':
            return self.ev(e['a'] if self.ev(e['c'], env) else e['b'], env)
        if k == 'bin':
            op = e['op']
            if op == '&&':
                return self.ev(e['a'], env) and self.ev(e['b'], env)
            if op == '||':
                return self.ev(e['a'], env) or self.ev(e['b'], env)
            a, b = self.ev(e['a'], env), self.ev(e['b'], env)
            if op in ('&', '|', '^') and isinstance(a, bool) and isinstance(b, bool):
                return a & b if op == '&' else a | b if op == '|' else a ^ b
            if op in CMP:
                return CMP[op](a, b)
            raise Undecided(op)
        if k in ('call', 'opcall'):
            f = self.u.fns.get(e.get('fn'))
            n = (e.get('qn') or '').split('::')[-1]
            a = [self.ev(x, env) for x in e['a']]
            if n in ('isnan', '__builtin_isnan') and not e.get('o'):
                return a[0] != a[0]
            if n in ('tie', 'make_tuple', 'make_pair', 'forward_as_tuple'):
                return tuple(a)
            if n.startswith('operator') and n[8:] in CMP and len(a) == 2 and isinstance(a[0], tuple):
                return CMP[n[8:]](a[0], a[1])
            if f is not None and f.get('body'):
                o = self.ev(e['o'], env) if e.get('o') else None
                if o is None and f.get('cls') and len(a) == len(f['p']) + 1:
                    o, a = a[0], a[1:]
                return self.call(f, o, a)
        raise Undecided(k)


CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def key(v):
    return float('-inf') if v != v else v


def elemtype(t):
    """template arguments of std::priority_queue<...> in a type string"""
    i = t.find('std::priority_queue<')
    if i < 0:
        return None
    d, cur, out = 0, '', []
    for ch in t[i + len('std::priority_queue<'):]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                out.append(cur.strip())
                return out
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return None


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat') + units.programs() + units.apps())
    types = set()
    for u in us:
        tt = set()
        for t in u.types:
            e = elemtype(t)
            if e:
                tt.add(tuple(e))
        for e in sorted(tt):
            if any(x.startswith('type-parameter') for x in e):
                continue
            queue_type(c, u, e)
        for f in u.fns.values():
            if f.get('cls') and f['n'].startswith('operator') and f['n'][8:] in CMP and inrepo(u, f) and len(f['p']) == 1 and 'GridCell' in f['cls']:
                types.add((u.src, f['cls'], f['fn'].rsplit('@F@', 1)[0]))
        for s in {t for t in types if t[0] == u.src}:
            operators(c, u, s[2])
        for f in u.fns.values():
            if inrepo(u, f) and f.get('cls') in ('richdem::GridCellZk_high_pq', 'richdem::GridCellZk_low_pq') and f['n'] == 'emplace':
                counter(c, u, f)
    each_root(c, us[1:6], pushes)
    c.need('comparator', 3)
    c.need('insertion number', 2)
    c.need('priority', 8)
    c.assume('std::priority_queue and std::pair comparisons behave as the standard says; radix_heap returns a minimal key')


def members(u, f):
    """fields compared: z (elevation) and k (insertion number) where present"""
    fs = set()

    def rec(g, d=0):
        for y in nodes(g['body'], lambda y: y['k'] == 'mem'):
            fs.add((y['f'], bare(u.types[y['t']])))
        if d < 4:
            for y in calls(g['body']):
                h = u.fns.get(y['fn'])
                if h is not None and h.get('body') and inrepo(u, h):
                    rec(h, d + 1)
    rec(f)
    return fs


def find_op(u, cls_usr, op):
    for f in u.fns.values():
        if f['n'] == 'operator' + op and f['fn'].rsplit('@F@', 1)[0] == cls_usr and f.get('body'):
            return f
    return None


def domain(u, f):
    fs = members(u, f)
    names = sorted({n for n, t in fs})
    flt = {n for n, t in fs if t in ('double', 'float', 'long double')}
    return names, [([0, 1, 2, NAN] if n in flt else [0, 1, 2]) for n in names]


def queue_type(c, u, e):
    el, cmp = bare(e[0]), e[2] if len(e) > 2 else 'std::less'
    k = short(el) + ' ' + cmp.split('<')[0]
    if cmp.startswith('std::less'):
        c.bad('comparator', k, 'a priority queue of %s orders by std::less: it returns the highest cell first' % short(el), u.src.replace(units.REPO + '/', ''))
        return
    if not cmp.startswith('std::greater'):
        return
    if el.startswith('std::pair<'):
        c.ok('comparator', k)
        return
    op = [f for f in u.fns.values() if f['n'] == 'operator>' and f.get('cls') and f.get('body') and bare(u.types[f['p'][0]['t']]).replace('const ', '').replace('&', '').strip() == el]
    if not op:
        op = [f for f in u.fns.values() if f['n'] == 'operator>' and f.get('body') and len(f['p']) == 1 and el in u.types[f['p'][0]['t']]]
    if not op:
        return      # never compared in this unit
    decide(c, u, op[0], el, k)


def decide(c, u, f, el, k):
    names, dom = domain(u, f)
    w = where(u, f)
    R = Rank(u)
    prim = [n for n in names if n in ('z', 'elev', 'e', 'elevation')] or names[:1]
    if not prim:
        c.bad('comparator', k, 'the comparison of %s reads no field' % el, w)
        return
    prim = prim[0]
    cells = [dict(zip(names, v)) for v in itertools.product(*dom)]
    if len(cells) > 64:
        raise units.ToolError('comparison of %s uses too many fields' % el)
    try:
        g = {(i, j): bool(R.call(f, a, [b])) for i, a in enumerate(cells) for j, b in enumerate(cells)}
    except Undecided as ex:
        raise units.ToolError('comparison of %s is not built from field comparisons: %s' % (el, ex))
    n = len(cells)
    err = None
    for i in range(n):
        if g[i, i]:
            err = 'is not irreflexive'
        for j in range(n):
            a, b = cells[i], cells[j]
            if g[i, j] and g[j, i]:
                err = 'is not asymmetric'
            ka, kb = key(a[prim]), key(b[prim])
            if ka != kb and g[i, j] != (ka > kb):
                err = 'does not put the lower %s first (%s vs %s)' % (prim, a, b)
            if ka == kb and 'k' in names and err is None:
                want = (a['k'] > b['k']) if 'low' in el else (a['k'] < b['k'])
                if g[i, j] != want:
                    err = 'does not break ties by insertion order (%s vs %s)' % (a, b)
    if err is None:
        for i in range(n):
            for j in range(n):
                for m in range(n):
                    if g[i, j] and g[j, m] and not g[i, m]:
                        err = 'is not transitive'
                    if not g[i, j] and not g[j, i] and not g[j, m] and not g[m, j] and (g[i, m] or g[m, i]):
                        err = 'has intransitive ties'
    c.fn(f['qn'])
    if err:
        c.bad('comparator', k, 'the order of %s %s' % (short(el), err), w)
    else:
        c.ok('comparator', k)
    if 'Zk' in el and 'k' not in names:
        c.bad('comparator', k + ' k', 'the order of %s ignores the insertion number' % short(el), w)


def operators(c, u, usr):
    ops = {op: find_op(u, usr, op) for op in CMP}
    ops = {o: f for o, f in ops.items() if f is not None}
    f0 = next(iter(ops.values()))
    R = Rank(u)
    for op, f in ops.items():
        names, dom = domain(u, f)
        if 'z' not in names or 'k' in names:
            continue
        cells = [dict(zip(names, v)) for v in itertools.product(*dom)]
        err = None
        for a in cells:
            for b in cells:
                try:
                    r = bool(R.call(f, a, [b]))
                except Undecided as ex:
                    raise units.ToolError('%s is not built from field comparisons: %s' % (f['qn'], ex))
                if r != CMP[op](key(a['z']), key(b['z'])):
                    err = (a, b)
        k = short(f['cls']) + ' operator' + op
        c.fn(f['qn'])
        if err:
            c.bad('operator', k + (' (floating)' if len(dom[0]) == 4 else ''), 'operator%s of %s is inconsistent with the elevation order (NaN lowest) for %s and %s' % ((op, short(f['cls'])) + err), where(u, f))
        else:
            c.ok('operator', k)


def counter(c, u, f):
    """the insertion number handed to the heap is one more than any before"""
    k = short(f['cls'])
    c.fn(f['qn'])
    got = []

    def on(eng, ev, st):
        if ev.kind in ('push', 'call') and ev.args and len(ev.args) == 4 and ev.stack[-1][0] == f['qn']:
            got.append((eng.val(st, ev.args[3]), eng, st.copy()))
    e = Engine(u, Policy(), on)
    outs = e.analyse(f)
    own = {x['n'] for r in u.records.values() if r['qn'] == f['cls'] for x in r['fields'] if isint_t(u.types[x['t']])}
    ok = bool(got)
    for v, eng, st in got:
        g = [l for l in st.mem if l.k == 'fld' and l.a[1] in own]
        ok = ok and bool(g)
        for l in g:
            post = eng.load(st, l)
            v0 = [x for x in lin(v)[1]]
            # both the number used and the stored counter exceed the old counter by one
            d = sub(post, v)
            ok = ok and isc(d) and d.a[0] in (0, 1) and lin(post)[0] == 1 and len(lin(post)[1]) == 1
    if not ok:
        c.bad('insertion number', k, '%s::emplace does not pass a number that grows with every insertion' % k, where(u, f))
    else:
        c.ok('insertion number', k)
    # narrowing between the counter and the field that is compared
    cnt = [y for y in nodes(f['body'], lambda y: y['k'] == 'mem' and y.get('f') in own)]
    el = f['cls'].replace('_pq', '')
    fld = [x for r in u.records.values() if r['qn'].split('<')[0] == el for x in r['fields'] if x['n'] == 'k']
    for x in fld:
        if width(u.types[x['t']]) < max(width(u.types[y['t']]) for y in cnt):
            c.bad('insertion width', k + ' width', 'the insertion number of %s is narrowed from %s to %s: after 2^31 insertions ties are no longer broken in order' % (
                k, bare(u.types[cnt[0]['t']]), bare(u.types[x['t']])), where(u, f))
        else:
            c.ok('insertion width', k)


def width(t):
    b = bare(t)
    return 64 if 'long' in b else 32 if 'int' in b else 16 if 'short' in b else 8


def pushes(c, u, f):
    """priority of a queued cell == elevation of that cell"""
    seen = set()

    def on(eng, ev, st):
        seen.update(x[0] for x in ev.stack)
        if ev.kind != 'push' or not ev.node.get('o'):
            return
        t = eng.ty(ev.node['o'])
        b = bare(t)
        if b.startswith('std::queue') or not ('GridCellZ' in b or 'radix_heap' in b or 'priority_queue' in b):
            return
        if ev.stack[-1][0].split('::')[-2:-1] and ev.stack[-1][0].split('::')[-2].startswith('GridCellZ'):
            return
        vals = [eng.val(st, a) for a in ev.args]
        if 'GridCellZ' in b and len(vals) >= 3:
            x, y, z = vals[:3]
        elif len(vals) == 2 and ('radix_heap' in b or 'pair' in b):
            z, i = vals
            i = strip_ucast(i)
            if i.k == 'idx':
                x, y = i.a[1], i.a[2]
            else:
                x, y = eng.idx2(st, next(iter(eng.rasters)), i) if eng.rasters else (None, None)
        else:
            return
        k = '%s %s' % (fname(ev), ev.line)
        z = strip_ucast(z)
        for R in eng.rasters:
            if eng.load(st, mk('el', R, strip_ucast(x), strip_ucast(y))) is z:
                c.ok('priority', k)
                return
        c.bad('priority', '%s priority %s' % (fname(ev), norm(show(z))), 'a cell (%s,%s) is queued in %s with priority %s, which is not its own elevation' % (
            norm(show(x)), norm(show(y)), fname(ev), norm(show(z))), evwhere(ev))
    e = Engine(u, Policy(), on)
    try:
        e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))
    return seen


def norm(s):
    import re
    return re.sub(r'#\d+', '', s)[:100]
