"""Path-partitioned abstract interpreter over the exported AST.

Every function under analysis is interpreted once per control-flow partition:
loops are replaced by one generic iteration starting from a havocked state plus
inductively checked facts, calls to repository code are inlined, everything else
is an uninterpreted effect.  Rules receive events (reads, writes, container
operations, calls, throws, returns) together with the facts that hold there."""
import time
import sys
from terms import *

sys.setrecursionlimit(20000)

INTISH = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
          'unsigned char', 'bool', 'long long', 'unsigned long long', '__int128'}
UNSIGNED = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long', 'bool'}


def bare(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith('&'):
            t = t.rstrip('&').strip()
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.endswith('*const'):
            t = t[:-5]
        else:
            return t


ENUMS = set()     # names of the enumeration types of the units loaded


def isint_t(t):
    b = bare(t)
    if b in INTISH:
        return True
    if b in ('float', 'double', 'long double'):
        return False
    return b in ENUMS or b.endswith('Topology') or b.endswith('Mode') or 'enum' in b


ARR2 = 'richdem::Array2D'
ARR3 = 'richdem::Array3D'


class Unit:
    """One exported translation unit."""

    def __init__(self, data):
        self.types = data['types']
        ENUMS.update(data.get('enums', ()))
        self.files = data['files']
        self.errors = data.get('errors', 0)
        self.fns = {}
        for f in data['functions'] + data.get('functions2', []):
            self.fns.setdefault(f['fn'], f)
        self.records = {r['qn']: r for r in data['records']}
        self.reclist = data['records']
        self.globals = {g['d']: g for g in data['globals']}
        self.gq = {g['qn']: g for g in data['globals']}
        self.templates = data.get('templates', [])

    def byname(self, qn):
        return [f for f in self.fns.values() if f['qn'] == qn]

    def file(self, f):
        return self.files[f['file']]


class State:
    __slots__ = ('mem', 'env', 'facts', 'hist', 'tags', 'omp', 'loops', 'dead')

    def __init__(self, env):
        self.mem = {}
        self.env = {}
        self.facts = Facts(env)
        self.hist = None
        self.tags = {}
        self.omp = ()
        self.loops = ()
        self.dead = False

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.facts = self.facts.copy()
        s.hist = self.hist
        s.tags = dict(self.tags)
        s.omp = self.omp
        s.loops = self.loops
        s.dead = False
        return s

    def events(self, until=None):
        h = self.hist
        r = []
        while h is not None and h is not until:
            r.append(h[1])
            h = h[0]
        r.reverse()
        return r


class Ev:
    __slots__ = ('kind', 'node', 'loc', 'val', 'old', 'args', 'fn', 'info', 'stack', 'st', 'line', 'file')

    def __init__(self, kind, node, **kw):
        self.kind = kind
        self.node = node
        self.loc = self.val = self.old = self.args = self.fn = self.info = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return 'Ev(%s %s:%s loc=%s val=%s args=%s fn=%s)' % (self.kind, self.file, self.line, self.loc, self.val, self.args, self.fn)


class Out:
    __slots__ = ('k', 'st', 'v')

    def __init__(self, k, st, v=None):
        self.k = k
        self.st = st
        self.v = v


class Budget(Exception):
    pass


class Policy:
    """What to inline and limits.  Rules may override."""
    noinline_cls = ('richdem::ProgressBar', 'richdem::Timer', 'richdem::StreamLogger', 'richdem::StreamProgress',
                    'richdem::RDLOG', 'richdem::LogFlag', 'radix_heap::', 'DisjointDenseIntSet', 'richdem::DisjointDenseIntSet')
    maxdepth = 7
    maxstates = 24
    loopexits = 4
    budget = 400000
    tmax = 400

    def inline(self, eng, f, depth):
        if depth > self.maxdepth:
            return False
        c = f.get('cls', '')
        if any(c.startswith(x) for x in self.noinline_cls):
            return False
        fl = eng.u.files[f['file']]
        if '/cereal/' in fl:
            return False
        q = f['qn']
        if q.endswith('rdCompileTime') or q.endswith('rdHash') or '::RDLOG' in q:
            return False
        return True


MATH = {'sqrt', 'pow', 'atan2', 'atan', 'cos', 'sin', 'tan', 'exp', 'log', 'log2', 'log10', 'floor', 'ceil', 'round',
        'fabs', 'abs', 'fmod', 'isnan', 'isinf', 'isfinite', 'nextafter', 'nextafterf', 'nexttoward', 'hypot', 'acos', 'asin', 'sqrtf',
        'powf', 'signbit', 'copysign', 'lround', 'trunc', 'fmax', 'fmin', '__builtin_huge_val', 'log1p', 'cbrt'}


def direction(v):
    """+1/-1 if v is nextafter(a, +-huge)"""
    if v.k == 'fnv' and str(v.a[0]).split('::')[-1].startswith('next') and len(v.a) == 3 and v.a[2].k == 'c':
        try:
            x = float(v.a[2].a[0])
        except ValueError:
            return 0
        if abs(x) > 1e30:
            return 1 if x > 0 else -1
    return 0


class Engine:
    def __init__(self, unit, policy=None, on_event=None):
        self.u = unit
        self.pol = policy or Policy()
        self.listeners = [on_event] if on_event else []
        self.nonneg = {}
        self.W = mk('sym', 'W')
        self.H = mk('sym', 'H')
        self.nonneg[self.W] = 1
        self.nonneg[self.H] = 1
        self.quiet = 0
        self.t0 = time.time()
        self.stack = []
        self.loopM = {}
        self.loopC = {}
        self.steps = 0
        self.warn = set()
        self.wlog = None  # stack of sets collecting written locations
        self.tables = {}
        self.uid = 0
        self.dimsof = {}  # raster loc -> (W,H) override
        self.loop_end = None  # callback(engine, loopnode, stmt, outs, head)
        self.rule = None
        self.nevents = 0
        self.lambda_env = {}

    # ------------------------------------------------------------ tables
    def table(self, name):
        if name in self.tables:
            return self.tables[name]
        g = self.u.gq.get(name)
        v = g.get('val') if g else None
        # std::array -> [[...]]
        while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
            v = v[0]
        if isinstance(v, list) and all(isinstance(x, (int, float, bool)) for x in v):
            v = [int(x) if isinstance(x, bool) else x for x in v]
        else:
            v = None
        self.tables[name] = v
        return v

    def ty(self, e):
        return self.u.types[e['t']]

    # ------------------------------------------------------------ events
    def emit(self, kind, node, st, **kw):
        ev = Ev(kind, node, **kw)
        ev.line = node.get('l', 0) if node else 0
        ev.stack = tuple(self.stack)
        ev.file = self.curfile
        ev.st = st
        st.hist = (st.hist, ev)
        if self.quiet:
            return ev
        self.nevents += 1
        for f in self.listeners:
            f(self, ev, st)
        return ev

    # ------------------------------------------------------------ memory
    def wrote(self, loc):
        if self.wlog:
            for s in self.wlog:
                s.add(loc)

    def base(self, loc):
        """(havoc granule) of a location: contents of a container, or the location"""
        l = loc
        res = loc
        while l.k in ('fld', 'el', 'cnt'):
            if l.k == 'el':
                res = mk('cnt', l.a[0])
            l = l.a[0]
        return res

    def root(self, loc):
        while loc.k in ('fld', 'el', 'cnt') and isinstance(loc.a[0], T):
            loc = loc.a[0]
        return loc

    def israster(self, loc):
        return loc in self.rasters

    def load(self, st, loc, t=None):
        v = st.mem.get(loc)
        if v is not None:
            return v
        v = self.default(st, loc)
        if t is not None and bare(t) in UNSIGNED and not isc(v) and v.k not in ('lin', 'cmp', 'and', 'or', 'not'):
            self.nonneg.setdefault(v, 0)
        if loc.k == 'el':
            st.mem[loc] = v
        return v

    def whole(self, st, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        if loc.k == 'fld':
            return mk('fv', self.whole(st, loc.a[0]), loc.a[1])
        if loc.k == 'el':
            return self.default(st, loc)
        return mk('ld', loc)

    def content(self, st, loc):
        c = mk('cnt', loc)
        v = st.mem.get(c)
        return v if v is not None else mk('ct', self.whole(st, loc))

    def default(self, st, loc):
        if loc.k == 'fld':
            R, f = loc.a
            if f == 'view_width' or f == 'view_height':
                if R in st.mem and st.mem[R].k in ('tmpl',):
                    return self.load(st, mk('fld', st.mem[R].a[0], f))
                return self.W if f == 'view_width' else self.H
            w = self.whole(st, R)
            if w.k == 'obj':
                for n, v in w.a[1]:
                    if n == f:
                        return v
            return mk('fv', w, f)
        if loc.k == 'el':
            R = loc.a[0]
            w = self.content(st, R)
            if w.k == 'fill':
                return w.a[0]
            if len(loc.a) == 2 and isc(loc.a[1]):
                z = w
                while z.k in ('ct', 'ilist') and z.a and (z.k == 'ct' or len(z.a) == 1 and isinstance(z.a[0], T) and z.a[0].k in ('ilist', 'ct')):
                    z = z.a[0]
                if z.k == 'ilist' and 0 <= loc.a[1].a[0] < len(z.a) and isinstance(z.a[int(loc.a[1].a[0])], T):
                    return z.a[int(loc.a[1].a[0])]
            # constant tables
            if len(loc.a) == 2:
                g = self.const_table(w)
                if g is not None:
                    n = loc.a[1]
                    tab = self.table(g)
                    if isc(n) and tab and 0 <= n.a[0] < len(tab):
                        return C(tab[int(n.a[0])])
                    return mk('tb', g, n)
            return mk('rd', w, *loc.a[1:])
        return mk('ld', loc)

    def const_table(self, w):
        # ct(ld(gl qn)) for constexpr globals with an evaluated table
        x = w
        while x.k in ('ct', 'ld'):
            x = x.a[0]
        if x.k == 'gl' and self.table(x.a[0]) is not None and self.u.gq[x.a[0]].get('const'):
            return x.a[0]
        return None

    def under(self, key, loc):
        k = key
        while True:
            if k is loc:
                return True
            if k.k in ('fld', 'el', 'cnt'):
                k = k.a[0]
            else:
                return False

    def havoc(self, st, loc, name='h'):
        self.wrote(self.base(loc))
        for k in [k for k in st.mem if self.under(k, loc)]:
            del st.mem[k]
        if loc.k == 'cnt':
            R = loc.a[0]
            for k in [k for k in st.mem if k.k == 'el' and k.a[0] is R or (k.k in ('fld', 'el', 'cnt') and self.under_el(k, R))]:
                del st.mem[k]
            st.mem[loc] = fresh('c')
            return
        if loc.k == 'el':
            self.store_el(st, loc, fresh(name))
            return
        if loc.k == 'fld' and loc.a[1] in ('view_width', 'view_height'):
            s = fresh(loc.a[1])
            self.nonneg[s] = 1
            st.mem[loc] = s
            return
        old_dims = None
        st.mem[loc] = fresh(name + ':' + show(loc)[-12:])

    def under_el(self, k, R):
        while k.k in ('fld', 'el', 'cnt'):
            if k.k == 'el' and k.a[0] is R:
                return True
            k = k.a[0]
        return False

    def samekey(self, st, a, b):
        """True same, False distinct, None unknown"""
        if a is b:
            return True
        if len(a) != len(b):
            return None
        if all(x is y for x, y in zip(a, b)):
            return True
        f = st.facts
        for x, y in zip(a, b):
            if x is not y and f.ne(x, y):
                return False
        if len(a) >= 2:
            dx = sub(a[0], b[0])
            dy = sub(a[1], b[1])
            if dx.k == 'tb' and dy.k == 'tb' and dx.a[1] is dy.a[1]:
                n = dx.a[1]
                tx, ty = self.table(dx.a[0]), self.table(dy.a[0])
                lo = f.const_bound(n, -1)
                if tx and ty and lo is not None:
                    if all((tx[i], ty[i]) != (0, 0) for i in range(max(0, int(lo)), min(len(tx), len(ty)))):
                        return False
        return None

    def store_el(self, st, loc, val):
        R = loc.a[0]
        key = loc.a[1:]
        keep_content = True
        for k in list(st.mem):
            kk = k
            top = None
            while kk.k in ('fld', 'el', 'cnt'):
                if kk.k == 'el' and kk.a[0] is R:
                    top = kk
                kk = kk.a[0]
            if top is None:
                continue
            s = self.samekey(st, top.a[1:], key)
            if s is not False:
                del st.mem[k]
        c = mk('cnt', R)
        st.mem[c] = fresh('st')
        st.mem[loc] = val

    def store(self, st, loc, val, node=None):
        self.wrote(self.base(loc))
        if loc.k == 'el':
            self.store_el(st, loc, val)
            return
        for k in [k for k in st.mem if k is not loc and self.under(k, loc)]:
            del st.mem[k]
        st.mem[loc] = val

    def copyobj(self, st, dst, src):
        if dst is src:
            return
        if dst.k == 'el':
            sub_ = self.snapshot(st, src)
            self.wrote(self.base(dst))
            self.store_el(st, dst, self.whole(st, src))
            for k, v in sub_:
                st.mem[self.rebase(k, src, dst)] = v
            return
        sub_ = self.snapshot(st, src)
        w = self.whole(st, src)
        dims = None
        for k in [k for k in st.mem if self.under(k, dst)]:
            del st.mem[k]
        self.wrote(self.base(dst))
        st.mem[dst] = w
        for k, v in sub_:
            if k is not src:
                st.mem[self.rebase(k, src, dst)] = v

    def snapshot(self, st, src):
        return [(k, v) for k, v in st.mem.items() if k is not src and self.under(k, src)]

    def rebase(self, k, src, dst):
        if k is src:
            return dst
        return mk(k.k, self.rebase(k.a[0], src, dst), *k.a[1:])

    # ------------------------------------------------------------ conditions
    def assume(self, st, t, truth, isint=True):
        """add fact; returns False when contradictory"""
        if isc(t):
            return bool(t.a[0]) == truth
        k = t.k
        if k == 'not':
            return self.assume(st, t.a[0], not truth)
        if k == 'and':
            if truth:
                return all(self.assume(st, x, True) for x in t.a)
            # unit propagation
            rest = [x for x in t.a if not self.known(st, x, True)]
            if not rest:
                return False
            if len(rest) == 1:
                return self.assume(st, rest[0], False)
            return self._atom(st, t, truth)
        if k == 'or':
            if not truth:
                return all(self.assume(st, x, False) for x in t.a)
            rest = [x for x in t.a if not self.known(st, x, False)]
            if not rest:
                return False
            if len(rest) == 1:
                return self.assume(st, rest[0], True)
            return self._atom(st, t, truth)
        if k == 'cmp':
            op, a, b, ii = t.a
            if not truth:
                op = {'<': '>=', '<=': '>', '==': '!=', '!=': '=='}[op]
            return self._cmp(st, op, a, b, ii)
        return self._atom(st, t, truth)

    def _atom(self, st, t, truth):
        c, d = lin(t)
        if truth:
            ok = st.facts.add_ne(c, d)
            return ok and st.facts.tighten()
        return st.facts.add_le(c, d) and st.facts.add_le(-c, {k: -v for k, v in d.items()})

    def _cmp(self, st, op, a, b, ii):
        f = st.facts
        if op in ('>', '>='):
            return self._cmp(st, {'>': '<', '>=': '<='}[op], b, a, ii)
        ua = a.k == 'ucast'
        if ua and op in ('<', '<=') and not isc(b):
            # unsigned trick: (unsigned)a < b with b known non-negative and small
            if f.le(C(0), b) or b.k == 'ucast':
                a2 = strip_ucast(a)
                ca, da = lin(a2)
                if not f.add_le(-ca, {k: -v for k, v in da.items()}):
                    return False
                a = a2
        a = strip_ucast(a)
        b = strip_ucast(b)
        ca, da = lin(a)
        cb, db = lin(b)
        d = dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        c = ca - cb
        nd = {k: -v for k, v in d.items()}
        if op == '<':
            r = f.add_le(c + 1, d) if ii else f.add_le(c, d, True)
        elif op == '<=':
            r = f.add_le(c, d)
        elif op == '==':
            if not d:
                return c == 0
            r = f.add_le(c, d) and f.add_le(-c, nd)
            items = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
            cc = c
            if r and items[0][1] < 0:
                cc, items = -c, tuple((k, -v) for k, v in items)
            if r and (cc, items) in f.diseq:
                return False
            # equality of boolean-valued terms with constants
            if r and a.k in ('cmp', 'and', 'or', 'not') and isc(b):
                return self.assume(st, a, bool(b.a[0]))
            if r and b.k in ('cmp', 'and', 'or', 'not') and isc(a):
                return self.assume(st, b, bool(a.a[0]))
        else:
            r = f.add_ne(c, d, ii)
            if r and a.k in ('cmp', 'and', 'or', 'not') and isc(b):
                return self.assume(st, a, not bool(b.a[0]))
        return r and f.tighten()

    def known(self, st, t, truth):
        """is t known to be truth?"""
        if isc(t):
            return bool(t.a[0]) == truth
        if t.k == 'not':
            return self.known(st, t.a[0], not truth)
        if t.k == 'and':
            if truth:
                return all(self.known(st, x, True) for x in t.a)
            if any(self.known(st, x, False) for x in t.a):
                return True
        if t.k == 'or':
            if not truth:
                return all(self.known(st, x, False) for x in t.a)
            if any(self.known(st, x, True) for x in t.a):
                return True
        f = st.facts
        if t.k == 'cmp':
            op, a, b, ii = t.a
            a = strip_ucast(a)
            b = strip_ucast(b)
            if op == '<':
                return f.lt(a, b, ii) if truth else f.le(b, a)
            if op == '<=':
                return f.le(a, b) if truth else f.lt(b, a, ii)
            if op == '==':
                return f.eq(a, b) if truth else f.ne(a, b)
            return f.ne(a, b) if truth else f.eq(a, b)
        if truth:
            return f.ne(t, C(0))
        return f.eq(t, C(0))

    def cmp(self, op, a, b, ii):
        if op in ('>', '>='):
            op = {'>': '<', '>=': '<='}[op]
            a, b = b, a
        if isc(a) and isc(b):
            x, y = a.a[0], b.a[0]
            return C({'<': x < y, '<=': x <= y, '==': x == y, '!=': x != y}[op])
        if a is b and ii:
            return C(op in ('<=', '=='))
        if op in ('==', '!='):
            # boolean compared with constant
            for x, y in ((a, b), (b, a)):
                if isc(y) and x.k in ('cmp', 'and', 'or', 'not') and y.a[0] in (0, 1):
                    want = (y.a[0] == 1) == (op == '==')
                    return x if want else self.negt(x)
            if a.id > b.id:
                a, b = b, a
        return mk('cmp', op, a, b, bool(ii))

    def negt(self, t):
        if isc(t):
            return C(not t.a[0])
        if t.k == 'not':
            return t.a[0]
        if t.k == 'cmp':
            op, a, b, ii = t.a
            if op in ('==', '!='):
                return mk('cmp', '!=' if op == '==' else '==', a, b, ii)
            return mk('cmp', '<=' if op == '<' else '<', b, a, ii)
        if t.k == 'and':
            return mk('or', *[self.negt(x) for x in t.a])
        if t.k == 'or':
            return mk('and', *[self.negt(x) for x in t.a])
        return mk('not', t)

    # ------------------------------------------------------------ expressions
    # ev(e, st) -> [(st, value)] ; lv(e, st) -> [(st, loc)]
    def seq(self, es, st):
        """evaluate a list of expressions left to right -> [(st, [vals])]"""
        outs = [(st, [])]
        for e in es:
            n = []
            for s, vs in outs:
                for s2, v in self.ev(e, s):
                    n.append((s2, vs + [v]))
            outs = n
        return outs

    def isclass(self, t):
        b = bare(t)
        if b in INTISH or b in ('float', 'double', 'long double', 'void', 'std::nullptr_t', '?'):
            return False
        if b.endswith('*') or b.endswith(']') or '(*)' in b or b.endswith(')'):
            return False
        return not isint_t(t)

    def cond(self, e, st):
        """-> [(st, bool)] with facts added (short-circuit aware)"""
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            res = []
            for s, b in self.cond(e['a'], st):
                if b == (e['op'] == '&&'):
                    res += self.cond(e['b'], s)
                else:
                    res.append((s, b))
            return res
        if e['k'] == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st)]
        if e['k'] == 'cast' and e.get('ck') in ('IntegralToBoolean', 'NoOp', 'IntegralCast', 'PointerToBoolean'):
            if e['ck'] != 'IntegralCast':
                return self.cond(e['e'], st)
        res = []
        for s, v in self.ev(e, st):
            res += self.split(s, v)
        return res

    def split(self, s, v):
        if isc(v):
            return [(s, bool(v.a[0]))]
        r = []
        s2 = s.copy()
        if self.assume(s, v, True):
            r.append((s, True))
        if self.assume(s2, v, False):
            r.append((s2, False))
        return r

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.pol.budget or (self.steps & 1023) == 0 and time.time() - self.t0 > self.pol.tmax:
            raise Budget()
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return [(st, fresh('x'))]
        return m(e, st)

    def e_int(self, e, st):
        v = e['v']
        if isinstance(v, str):
            v = int(v)
        return [(st, C(v))]

    def e_flt(self, e, st):
        v = e['v']
        if isinstance(v, str):
            return [(st, mk('c', v))]
        return [(st, C(v))]

    def e_str(self, e, st):
        return [(st, mk('str', e.get('v', '')))]

    def e_null(self, e, st):
        return [(st, C(0))]

    def e_zero(self, e, st):
        return [(st, C(0))]

    def e_this(self, e, st):
        return [(st, mk('addr', self.this()))]

    def this(self):
        return self.thisloc

    def e_ref(self, e, st):
        dk = e.get('dk')
        if dk == 'fn':
            return [(st, mk('fn', e['fn']))]
        if dk == 'enum':
            return [(st, mk('enum', e.get('qn', e['n'])))]
        r = []
        for s, l in self.lv(e, st):
            r.append((s, self.rval(e, s, l)))
        return r

    def rval(self, e, s, l):
        t = self.ty(e)
        if bare(t).endswith(']'):
            return mk('addr', l)
        if self.isclass(t):
            return mk('objat', l)
        self.emit_read(e, s, l)
        return self.load(s, l, t)

    def emit_read(self, e, s, l):
        self.emit('rd', e, s, loc=l)

    def e_mem(self, e, st):
        return [(s, self.rval(e, s, l)) for s, l in self.lv(e, st)]

    def e_sub(self, e, st):
        return [(s, self.rval(e, s, l)) for s, l in self.lv(e, st)]

    def lv(self, e, st):
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            d = e.get('d')
            if dk == 'global' or (dk == 'static'):
                if dk == 'global':
                    return [(st, mk('gl', e.get('qn', e['n'])))]
                return [(st, mk('gl', 'static:%s:%d' % (e['n'], d)))]
            if dk == 'fn':
                return [(st, mk('fn', e['fn']))]
            l = st.env.get(d)
            if l is None:
                l = mk('v', '%s@%d' % (e.get('n'), d))
                st.env[d] = l
            return [(st, l)]
        if k == 'int' or k == 'flt':
            # constant folded lvalue
            if e.get('qn'):
                return [(st, mk('gl', e['qn']))]
            return self.temp(e, st)
        if k == 'mem':
            r = []
            if e.get('arrow'):
                for s, v in self.ev(e['b'], st):
                    r.append((s, mk('fld', self.deref(v), e['f'])))
            else:
                for s, l in self.lv(e['b'], st):
                    r.append((s, mk('fld', l, e['f'])))
            return r
        if k == 'this':
            return [(st, self.this())]
        if k == 'sub':
            r = []
            for s, b in self.ev(e['b'], st):
                for s2, i in self.ev(e['i'], s):
                    loc = mk('el', self.deref(b), i)
                    self.emit('elem', e, s2, loc=loc, args=[i])
                    r.append((s2, loc))
            return r
        if k == 'un':
            op = e['op']
            if op == '*':
                return [(s, self.deref(v)) for s, v in self.ev(e['e'], st)]
            if op in ('++', '--'):
                r = []
                for s, l in self.lv(e['e'], st):
                    self.incdec(e, s, l)
                    r.append((s, l))
                return r
        if k == 'assign':
            return self.do_assign(e, st)
        if k == 'cast':
            if e.get('ck') in ('NoOp', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'LValueToRValue'):
                return self.lv(e['e'], st)
            return self.temp(e, st)
        if k == 'cond':
            r = []
            for s, b in self.cond(e['c'], st):
                r += self.lv(e['a'] if b else e['b'], s)
            return r
        if k == 'call':
            return [(s, l) for s, l in self.call(e, st, want='lv')]
        if k == 'bin' and e['op'] == ',':
            r = []
            for s, _ in self.ev(e['a'], st):
                r += self.lv(e['b'], s)
            return r
        return self.temp(e, st)

    def temp(self, e, st):
        loc = mk('v', 'tmp%d:%s@%d' % (e.get('l', 0), e['k'], id(e)))
        if e['k'] == 'ctor':
            return self.construct(e, st, loc)
        r = []
        for s, v in self.ev(e, st):
            if v.k == 'objat':
                r.append((s, v.a[0]))
                continue
            for k in [k for k in s.mem if self.under(k, loc)]:
                del s.mem[k]
            s.mem[loc] = v
            r.append((s, loc))
        return r

    def deref(self, v):
        if v.k == 'addr':
            return v.a[0]
        if v.k == 'objat':
            return mk('deref', v.a[0])
        # pointer arithmetic: base + i
        if v.k == 'lin':
            for k_, c_ in v.a[1]:
                if k_.k == 'addr' and c_ == 1:
                    L = k_.a[0]
                    if L.k == 'el' and len(L.a) == 2:
                        return mk('el', L.a[0], add(L.a[1], sub(v, k_)))
                    return mk('el', L, sub(v, k_))
        return mk('deref', v)

    def e_cast(self, e, st):
        ck = e.get('ck')
        if ck == 'ToVoid':
            return self.ev(e['e'], st)
        t = self.ty(e)
        if self.isclass(t):
            return [(s, mk('objat', l)) for s, l in self.lv(e['e'], st)]
        r = []
        src = self.ty(e['e'])
        for s, v in self.ev(e['e'], st):
            if ck == 'IntegralCast':
                bt = bare(t)
                if isc(v):
                    v = C(self.wrap(v.a[0], bt))
                elif bt in UNSIGNED and bare(src) not in UNSIGNED and v.k not in ('cmp', 'and', 'or', 'not'):
                    if not s.facts.le(C(0), v):
                        v = mk('ucast', v)
                elif bt not in UNSIGNED and v.k == 'ucast':
                    v = v.a[0]
            elif ck == 'FloatingToIntegral':
                if isc(v):
                    v = C(int(v.a[0]))
                else:
                    v = mk('trunc', v)
            elif ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
                if v.k not in ('cmp', 'and', 'or', 'not'):
                    if isc(v):
                        v = C(bool(v.a[0]))
                    else:
                        v = self.cmp('!=', v, C(0), ck != 'FloatingToBoolean')
            elif ck == 'NullToPointer':
                v = C(0)
            elif ck in ('NoOp', 'BitCast', 'IntegralToFloating', 'FloatingCast', 'ConstructorConversion', 'LValueToRValue', 'IntegralToPointer', 'PointerToIntegral'):
                pass
            self.emit('cast', e, s, val=v)
            r.append((s, v))
        return r

    def wrap(self, v, bt):
        w = {'unsigned char': 8, 'signed char': -8, 'char': -8, 'unsigned short': 16, 'short': -16, 'unsigned int': 32,
             'int': -32, 'unsigned long': 64, 'long': -64, 'unsigned long long': 64, 'long long': -64, 'bool': 1}.get(bt)
        if w is None or not isinstance(v, int):
            return v
        n = abs(w)
        if w == 1:
            return int(bool(v))
        v &= (1 << n) - 1
        if w < 0 and v >= 1 << (n - 1):
            v -= 1 << n
        return v

    def e_un(self, e, st):
        op = e['op']
        if op == '!':
            r = []
            for s, v in self.ev(e['e'], st):
                r.append((s, self.negt(v) if v.k in ('cmp', 'and', 'or', 'not', 'c') else self.cmp('==', v, C(0), True)))
            return r
        if op == '-':
            return [(s, scale(v, -1)) for s, v in self.ev(e['e'], st)]
        if op == '+':
            return self.ev(e['e'], st)
        if op == '&':
            return [(s, mk('addr', l)) for s, l in self.lv(e['e'], st)]
        if op == '*':
            r = []
            for s, v in self.ev(e['e'], st):
                r.append((s, self.rval(e, s, self.deref(v))))
            return r
        if op in ('++', '--', 'p++', 'p--'):
            r = []
            for s, l in self.lv(e['e'], st):
                old, new = self.incdec(e, s, l)
                r.append((s, old if op[0] == 'p' else new))
            return r
        r = []
        for s, v in self.ev(e['e'], st):
            r.append((s, mk('uop', op, v)))
        return r

    def incdec(self, e, s, l):
        self.emit('rd', e, s, loc=l, info='rmw')
        old = self.load(s, l, self.ty(e['e']))
        new = add(old, C(1 if '++' in e['op'] else -1))
        self.store(s, l, new)
        self.emit('wr', e, s, loc=l, val=new, old=old, info='rmw')
        return old, new

    def arith(self, e, op, a, b, st):
        t = self.ty(e)
        if op == '+':
            return add(a, b)
        if op == '-':
            if a.k == 'addr' and b.k == 'addr':
                return mk('pdiff', a, b)
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op in ('/', '%'):
            if isc(a) and isc(b) and b.a[0] != 0:
                if isint_t(t):
                    q = int(a.a[0] / b.a[0]) if abs(a.a[0]) < 2**52 else a.a[0] // b.a[0]
                    return C(q if op == '/' else a.a[0] - q * b.a[0])
                if op == '/':
                    return C(a.a[0] / b.a[0])
            if isint_t(t):
                if b in self.widths:
                    x, y = split_idx(strip_ucast(a), b)
                    return x if op == '%' else y
            if op == '/' and isc(b) and b.a[0] != 0 and not isint_t(t):
                return scale(a, 1.0 / b.a[0])
            return mk('div' if op == '/' else 'mod', a, b)
        if isc(a) and isc(b) and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            try:
                return C({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
            except Exception:
                pass
        if op in ('&', '|') and a.k in ('cmp', 'and', 'or', 'not') and b.k in ('cmp', 'and', 'or', 'not'):
            return mk('and' if op == '&' else 'or', a, b)
        return mk('bop', op, a, b)

    def e_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            r = []
            # evaluate as a value: keep a compact term when the right side has no
            # side effects of its own
            for s, a in self.ev(e['a'], st):
                if isc(a):
                    if bool(a.a[0]) == (op == '&&'):
                        r += self.ev(e['b'], s)
                    else:
                        r.append((s, C(op == '||')))
                    continue
                base = s.copy()
                h0 = s.hist
                s2 = s.copy()
                if not self.assume(s2, a, op == '&&'):
                    r.append((s, C(op == '||')))
                    continue
                outs = self.ev(e['b'], s2)
                if len(outs) == 1 and self.samemem(outs[0][0], base):
                    b = outs[0][1]
                    base.hist = outs[0][0].hist
                    base.tags = outs[0][0].tags
                    base.mem = outs[0][0].mem
                    base.env = outs[0][0].env
                    if isc(b):
                        v = a if bool(b.a[0]) == (op == '&&') else C(b.a[0])
                    else:
                        fl = []
                        for x in (a, b):
                            if x.k == ('and' if op == '&&' else 'or'):
                                fl += list(x.a)
                            else:
                                fl.append(x)
                        v = mk('and' if op == '&&' else 'or', *fl)
                    r.append((base, v))
                else:
                    s3 = base
                    if self.assume(s3, a, op != '&&'):
                        r.append((s3, C(op == '||')))
                    r += outs
            return r
        if op == ',':
            r = []
            for s, _ in self.ev(e['a'], st):
                r += self.ev(e['b'], s)
            return r
        r = []
        if op in ('<', '<=', '>', '>=', '==', '!='):
            ii = isint_t(self.ty(e['a'])) and isint_t(self.ty(e['b'])) or '*' in self.ty(e['a'])
            for s, a in self.ev(e['a'], st):
                for s2, b in self.ev(e['b'], s):
                    r.append((s2, self.cmp(op, a, b, ii)))
            return r
        for s, a in self.ev(e['a'], st):
            for s2, b in self.ev(e['b'], s):
                v = self.arith(e, op, a, b, s2)
                self.emit('arith', e, s2, val=v, args=[a, b])
                r.append((s2, v))
        return r

    def samemem(self, a, b):
        """no stores happened in between (element reads may add entries)"""
        if a.mem == b.mem:
            return True
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None:
                if self.default(b, k) is not v:
                    return False
            elif w is not v:
                return False
        return all(k in a.mem for k in b.mem)

    def e_cond(self, e, st):
        r = []
        for s, b in self.cond(e['c'], st):
            r += self.ev(e['a'] if b else e['b'], s)
        return r

    def e_assign(self, e, st):
        return [(s, self.rvalq(e, s, l)) for s, l in self.do_assign(e, st)]

    def rvalq(self, e, s, l):
        if self.isclass(self.ty(e)):
            return mk('objat', l)
        return self.load(s, l)

    def do_assign(self, e, st):
        op = e['op']
        r = []
        for s, v in self.ev(e['b'], st):
            for s2, l in self.lv(e['a'], s):
                t = self.ty(e['a'])
                if op == '=':
                    if v.k == 'objat':
                        self.copyobj(s2, l, v.a[0])
                        self.emit('wr', e, s2, loc=l, val=self.whole(s2, l))
                    else:
                        old = self.load(s2, l) if not self.isclass(t) else None
                        self.store(s2, l, v)
                        self.emit('wr', e, s2, loc=l, val=v, old=old)
                else:
                    self.emit('rd', e, s2, loc=l, info='rmw')
                    old = self.load(s2, l, t)
                    new = self.arith({'t': e.get('ct', e['t'])}, op[:-1], old, v, s2)
                    if isint_t(t) and not isint_t(self.u.types[e.get('ct', e['t'])]):
                        new = mk('trunc', new)
                    self.store(s2, l, new)
                    self.emit('wr', e, s2, loc=l, val=new, old=old, info='rmw')
                r.append((s2, l))
        return r

    def e_lambda(self, e, st):
        loc = mk('v', 'lambda@%s' % e['fn'])
        self.lambda_env[e['fn']] = dict(st.env)
        return [(st, mk('lam', e['fn'], self.thisloc))]

    def e_init(self, e, st):
        r = []
        for s, vs in self.seq(e['a'], st):
            r.append((s, mk('ilist', *[self.objval(s, v) for v in vs])))
        return r

    def objval(self, s, v):
        return self.whole(s, v.a[0]) if v.k == 'objat' else v

    def e_new(self, e, st):
        r = [(st, None)]
        if e.get('n'):
            r = self.ev(e['n'], st)
        res = []
        for s, n in r:
            p = fresh('new')
            self.emit('new', e, s, val=p, args=[n], info=e.get('arr'))
            res.append((s, mk('addr', mk('heap', p))))
        return res

    def e_delete(self, e, st):
        r = []
        for s, v in self.ev(e['e'], st):
            self.emit('delete', e, s, val=v, info=e.get('arr'))
            r.append((s, C(0)))
        return r

    def e_throw(self, e, st):
        outs = [(st, None)]
        if e.get('e'):
            outs = self.ev(e['e'], st)
        for s, v in outs:
            self.emit('throw', e, s, val=v)
            s.dead = True
            s.tags['__thrown'] = True
        return [(s, fresh('never')) for s, v in outs]

    def e_ctor(self, e, st):
        loc = mk('v', 'tmp%d:ctor@%d' % (e.get('l', 0), id(e)))
        return [(s, mk('objat', l)) for s, l in self.construct(e, st, loc)]

    def e_call(self, e, st):
        return self.call(e, st, want='rv')

    def e_typeid(self, e, st):
        return [(st, mk('typeid', bare(self.u.types[e['of']]) if isinstance(e.get('of'), int) else None))]

    # ------------------------------------------------------------ construction
    def construct(self, e, st, loc):
        """run constructor expression e into loc -> [(st, loc)]"""
        if e.get('copy'):
            r = []
            for s, l in self.lv(e['a'][0], st):
                if l is not loc:
                    self.copyobj(s, loc, l)
                self.emit('ctor', e, s, loc=loc, args=[mk('objat', l)], fn=e.get('qn'), info='copy')
                r.append((s, loc))
            return r
        cls = e.get('cls', '')
        f = self.u.fns.get(e.get('fn'))
        res = []
        for s, args in self.args(e, e['a'], st):
            for k in [k for k in s.mem if self.under(k, loc)]:
                del s.mem[k]
            self.wrote(self.base(loc))
            self.emit('ctor', e, s, loc=loc, args=args, fn=e.get('qn'), info=cls)
            if cls in (ARR2, ARR3):
                self.raster_ctor(e, s, loc, args, cls)
                res.append((s, loc))
                continue
            if f is not None and f.get('body') and self.fn_ok(f):
                s.mem[loc] = mk('obj', cls, ())
                for o in self.run_fn(f, s, args, loc, e):
                    res.append((o.st, loc))
                continue
            if cls.startswith('std::vector') or cls.startswith('std::queue') or cls.startswith('std::stack') or cls.startswith('std::priority_queue') or cls.startswith('std::deque') or cls.startswith('std::array'):
                s.mem[loc] = fresh('obj')
                if cls.startswith('std::vector') and len(e['a']) >= 2 and 'initializer_list' not in str([self.u.types[p] for p in e.get('pt', [])]):
                    s.mem[mk('cnt', loc)] = mk('fill', self.objval(s, args[1]))
                elif cls.startswith('std::vector') and len(e['a']) == 1 and isint_t(self.ty(e['a'][0])):
                    s.mem[mk('cnt', loc)] = mk('fill', C(0)) if not self.isclass(self.elt(self.ty(e))) else fresh('c')
            elif len(args) == 0 and not e['a']:
                # implicit default constructor of an aggregate-like record
                rec = self.u.records.get(cls)
                s.mem[loc] = mk('obj', cls, ()) if rec else fresh('obj')
                if rec:
                    self.field_defaults(s, rec, loc)
            else:
                s.mem[loc] = mk('mkobj', cls, *[self.objval(s, a) for a in args])
            res.append((s, loc))
        return res

    def elt(self, t):
        b = bare(t)
        i = b.find('<')
        if i < 0:
            return '?'
        depth = 0
        for j in range(i + 1, len(b)):
            c = b[j]
            if c == '<':
                depth += 1
            elif c == '>':
                if depth == 0:
                    return b[i + 1:j].strip()
                depth -= 1
            elif c == ',' and depth == 0:
                return b[i + 1:j].strip()
        return b[i + 1:-1]

    def field_defaults(self, s, rec, loc, depth=0):
        for f in rec['fields']:
            if f.get('ie'):
                for s2, v in self.ev(f['ie'], s)[:1]:
                    if v.k == 'objat':
                        continue
                    s.mem[mk('fld', loc, f['n'])] = v
            elif f.get('rec') in self.u.records and f['rec'] not in (ARR2, ARR3) and not f.get('scalar') and depth < 3:
                self.field_defaults(s, self.u.records[f['rec']], mk('fld', loc, f['n']), depth + 1)

    def raster_ctor(self, e, s, loc, args, cls):
        pt = [self.u.types[p] for p in e.get('pt', [])]
        s.mem[loc] = fresh('raster')
        self.rasters.add(loc)
        if pt and ('Array2D<' in pt[0] or 'Array3D<' in pt[0]) and args[0].k == 'objat':
            src = args[0].a[0]
            for f in ('view_width', 'view_height'):
                s.mem[mk('fld', loc, f)] = self.load(s, mk('fld', src, f))
            s.mem[mk('cnt', loc)] = mk('fill', self.objval(s, args[1])) if len(args) > 1 else mk('fill', C(0))
        elif len(pt) >= 2 and isint_t(pt[0]) and isint_t(pt[1]):
            s.mem[mk('fld', loc, 'view_width')] = args[0]
            s.mem[mk('fld', loc, 'view_height')] = args[1]
            self.widths.add(args[0])
            s.mem[mk('cnt', loc)] = mk('fill', self.objval(s, args[2])) if len(args) > 2 else mk('fill', C(0))
        elif not pt:
            s.mem[mk('fld', loc, 'view_width')] = C(0)
            s.mem[mk('fld', loc, 'view_height')] = C(0)
        else:
            w, h = mk('sym', 'W:' + show(loc)), mk('sym', 'H:' + show(loc))
            self.nonneg[w] = 1
            self.nonneg[h] = 1
            self.widths.add(w)
            s.mem[mk('fld', loc, 'view_width')] = w
            s.mem[mk('fld', loc, 'view_height')] = h

    # ------------------------------------------------------------ calls
    def args(self, e, es, st):
        """evaluate call arguments: reference parameters -> objat(loc)"""
        pts = [self.u.types[p] for p in e.get('pt', [])]
        outs = [(st, [])]
        for i, a in enumerate(es):
            pt = pts[i] if i < len(pts) else None
            byref = (pt is not None and pt.rstrip().endswith('&')) or self.isclass(self.ty(a))
            n = []
            for s, vs in outs:
                if byref and a['k'] not in ('int', 'flt', 'str', 'lambda'):
                    for s2, l in self.lv(a, s):
                        n.append((s2, vs + [mk('objat', l)]))
                else:
                    for s2, v in self.ev(a, s):
                        n.append((s2, vs + [v]))
            outs = n
        return outs

    def val(self, s, a, t=None):
        """value of an evaluated argument"""
        if a.k == 'objat':
            return self.load(s, a.a[0], t)
        return a

    def fn_ok(self, f):
        if f['fn'] in self.active:
            return False
        return self.pol.inline(self, f, len(self.stack))

    def call(self, e, st, want):
        """-> [(st, value or loc)]"""
        qn = e.get('qn', '')
        n = qn.rsplit('::', 1)[-1]
        # logging streams: only the operands matter
        if e.get('op') == '<<' and not isint_t(self.ty(e)):
            return self.stream(e, st, want)
        # lambda / functor call through a variable
        outs = []
        if 'o' in e and e['o'] is not None:
            if e.get('arrow'):
                objs = [(s, self.deref(v)) for s, v in self.ev(e['o'], st)] if not self.isclass(self.ty(e['o'])) else self.lv(e['o'], st)
            else:
                objs = self.lv(e['o'], st)
            for s, o in objs:
                for s2, a in self.args(e, e['a'], s):
                    outs.append((s2, o, a))
        else:
            if not qn and e.get('cal'):
                r = []
                for s, c in self.ev(e['cal'], st):
                    for s2, a in self.args(e, e['a'], s):
                        r += self.call_value(e, s2, c, a, want)
                return r
            for s2, a in self.args(e, e['a'], st):
                outs.append((s2, None, a))
        res = []
        for s, o, a in outs:
            if s.dead:
                res.append((s, fresh('never')))
                continue
            res += self.dispatch(e, s, qn, n, o, a, want)
        return res

    def call_value(self, e, s, c, a, want):
        if c.k == 'fn' or c.k == 'lam':
            f = self.u.fns.get(c.a[0])
            if f is not None and f.get('body') and self.fn_ok(f):
                return self.inline(e, s, f, a, None, want, thisl=c.a[1] if c.k == 'lam' else None)
            if f is not None:
                self.emit('call', e, s, fn=f['qn'], args=a, info=f)
                self.effects(e, s, None, a, None)
                return self.opaque(e, s, want, 'indirect', a)
        self.emit('call', e, s, fn='?', args=a)
        self.effects(e, s, None, a, None)
        return self.opaque(e, s, want, 'indirect', a)

    def stream(self, e, st, want):
        r = []
        ops = ([e['o']] if e.get('o') else []) + e['a']
        outs = [(st, [])]
        for x in ops:
            n = []
            for s, vs in outs:
                t = self.ty(x)
                if self.isclass(t):
                    for s2, l in self.lv(x, s):
                        n.append((s2, vs + [mk('objat', l)]))
                else:
                    for s2, v in self.ev(x, s):
                        n.append((s2, vs + [v]))
            outs = n
        for s, vs in outs:
            self.emit('call', e, s, fn='operator<<', args=vs)
            loc = vs[0].a[0] if vs and vs[0].k == 'objat' else mk('v', 'stream')
            r.append((s, loc if want == 'lv' else mk('objat', loc)))
        return r

    def ret(self, e, s, v, want):
        """wrap value v for want"""
        if want == 'lv':
            if v.k == 'objat':
                return (s, v.a[0])
            loc = mk('v', 'tmp%d:call@%d' % (e.get('l', 0), id(e)))
            for k in [k for k in s.mem if self.under(k, loc)]:
                del s.mem[k]
            s.mem[loc] = v
            return (s, loc)
        return (s, v)

    def stepfact(self, s, v):
        """nextafter towards +-infinity does not go the other way"""
        d = direction(v)
        if d and v.a[1].k != 'c':
            self._cmp(s, '>=' if d > 0 else '<=', v, v.a[1], False)

    def opaque(self, e, s, want, name, a=(), pure=False):
        t = self.ty(e)
        rt = self.u.types[e['rt']] if 'rt' in e else t
        if pure:
            v = mk('fnv', name, *[self.objval(s, x) for x in a])
            self.stepfact(s, v)
        else:
            v = fresh(name)
        if bare(t) in UNSIGNED and v.k != 'c':
            self.nonneg.setdefault(v, 0)
        if rt.rstrip().endswith('&'):
            loc = mk('deref', v)
            return [(s, loc)] if want == 'lv' else [(s, self.rval(e, s, loc) if not self.isclass(t) else mk('objat', loc))]
        if self.isclass(t):
            loc = mk('v', 'tmp%d:call@%d' % (e.get('l', 0), id(e)))
            for k in [k for k in s.mem if self.under(k, loc)]:
                del s.mem[k]
            s.mem[loc] = v
            if bare(t).startswith(ARR2 + '<') or bare(t).startswith(ARR3 + '<'):
                self.rasters.add(loc)
            return [(s, loc)] if want == 'lv' else [(s, mk('objat', loc))]
        return [self.ret(e, s, v, want)]

    def lvret(self, e, s, loc, want):
        if want == 'lv':
            return [(s, loc)]
        if self.isclass(self.ty(e)):
            return [(s, mk('objat', loc))]
        return [(s, self.rval(e, s, loc))]

    def effects(self, e, s, o, a, f):
        """havoc what an uninterpreted call may modify"""
        pts = [self.u.types[p] for p in e.get('pt', [])]
        for i, x in enumerate(a):
            pt = pts[i] if i < len(pts) else ''
            p = pt.strip()
            if x.k == 'objat':
                if p.endswith('&') and not p.startswith('const '):
                    if p.endswith('&&') and x.a[0].k == 'v' and 'tmp' in str(x.a[0].a[0]):
                        continue
                    self.emit('wr', e, s, loc=x.a[0], val=None, info='opaque')
                    self.havoc(s, x.a[0])
            elif x.k == 'addr':
                if not p.startswith('const '):
                    self.emit('wr', e, s, loc=x.a[0], val=None, info='opaque')
                    self.havoc(s, x.a[0])
        if o is not None and not e.get('cm') and not e.get('sm'):
            self.emit('wr', e, s, loc=o, val=None, info='opaque')
            self.havoc(s, o)

    def idx2(self, s, R, a):
        W = self.load(s, mk('fld', R, 'view_width'))
        self.widths.add(W)
        return split_idx(strip_ucast(a), W)

    def dispatch(self, e, s, qn, n, o, a, want):
        h = self.hook(e, s, qn, n, o, a, want)
        if h is not None:
            return h
        cls = qn.rsplit('::', 1)[0]
        # ---- raster element access
        if cls in (ARR2, ARR3) and o is not None:
            self.rasters.add(o)
            if n == 'operator()' and cls == ARR2:
                v = [self.val(s, x) for x in a]
                if len(v) == 2:
                    loc = mk('el', o, strip_ucast(v[0]), strip_ucast(v[1]))
                else:
                    x, y = self.idx2(s, o, v[0])
                    loc = mk('el', o, x, y)
                self.emit('elem', e, s, loc=loc, args=v)
                return self.lvret(e, s, loc, want)
            if cls == ARR3 and n in ('operator()', 'getIN'):
                v = [self.val(s, x) for x in a]
                if n == 'getIN':
                    x, y = self.idx2(s, o, v[0])
                    loc = mk('el', o, x, y, v[1])
                else:
                    loc = mk('el', o, strip_ucast(v[0]), strip_ucast(v[1]), v[2])
                self.emit('elem', e, s, loc=loc, args=v)
                return self.lvret(e, s, loc, want)
            if n == 'xyToI' and cls == ARR2:
                W = self.load(s, mk('fld', o, 'view_width'))
                self.widths.add(W)
                v = [self.val(s, x) for x in a]
                t = mkidx(W, v[0], v[1])
                self.emit('xytoi', e, s, loc=o, args=v, val=t)
                return [self.ret(e, s, t, want)]
            if n == 'nshift' and cls == ARR2:
                W = self.load(s, mk('fld', o, 'view_width'))
                return [self.ret(e, s, mk('nsh', W, self.val(s, a[0])), want)]
            if n == 'resize' and cls in (ARR2, ARR3):
                self.emit('resize', e, s, loc=o, args=a)
                self.do_resize(e, s, o, a)
                return [self.ret(e, s, C(0), want)]
            if n == 'setAll':
                v = self.val(s, a[0])
                self.emit('setall', e, s, loc=o, args=[v])
                self.havoc(s, mk('cnt', o))
                s.mem[mk('cnt', o)] = mk('fill', v)
                return [self.ret(e, s, C(0), want)]
            if n == 'clear':
                self.havoc(s, mk('cnt', o))
                for f in ('view_width', 'view_height'):
                    pass
                return [self.ret(e, s, C(0), want)]
            if n in ('numDataCells', 'countDataCells', 'min', 'max', 'countval', 'empty', 'owned', 'getCellArea', 'getCellLengthX', 'getCellLengthY'):
                self.emit('call', e, s, fn=qn, loc=o, args=a)
                return self.opaque(e, s, want, n, [mk('ld', o)] + a, pure=n not in ('numDataCells',))
            if n in ('saveGDAL', 'saveToCache', 'loadData', 'dumpData', 'printStamp', 'printBlock', 'printAll', 'loadNative', 'loadGDAL',
                     'scale', 'replace', 'flipVert', 'flipHorz', 'transpose', 'setRow', 'setCol', 'setEdges', 'expand', 'topRow', 'bottomRow', 'leftColumn', 'rightColumn', 'getRowData', 'getColData') and not self.pol.__dict__.get('inline_raster'):
                self.emit('call', e, s, fn=qn, loc=o, args=a)
                if n in ('scale', 'replace', 'flipVert', 'flipHorz', 'setRow', 'setCol', 'setEdges'):
                    self.emit('wr', e, s, loc=mk('cnt', o), val=None, info='opaque')
                    self.havoc(s, mk('cnt', o))
                elif not e.get('cm') and n not in ('saveGDAL', 'saveToCache'):
                    self.emit('wr', e, s, loc=o, val=None, info='opaque')
                    self.havoc(s, o)
                return self.opaque(e, s, want, n, a)
        if qn == 'richdem::ManagedVector::operator[]' and o is not None and o.k == 'fld' and o.a[1] == '_data' and o.a[0] in self.rasters \
                and not self.pol.__dict__.get('inline_raster') and bare(self.u.types[e['o']['t']] if 't' in e['o'] else '') and self.flat2(o.a[0]):
            R = o.a[0]
            v = [self.val(s, x) for x in a]
            x, y = self.idx2(s, R, v[0])
            loc = mk('el', R, x, y)
            self.emit('elem', e, s, loc=loc, args=v)
            return self.lvret(e, s, loc, want)
        r = self.std(e, s, qn, n, cls, o, a, want)
        if r is not None:
            return r
        f = self.u.fns.get(e.get('fn'))
        if f is not None and f.get('lam') and o is not None:
            # closure object
            v = self.whole(s, o)
            thisl = v.a[1] if v.k == 'lam' else None
            if f.get('body') and self.fn_ok(f):
                return self.inline(e, s, f, a, None, want, thisl=thisl)
        if f is not None and f.get('body') and self.fn_ok(f):
            self.emit('enter', e, s, fn=qn, loc=o, args=a)
            return self.inline(e, s, f, a, o, want)
        self.emit('call', e, s, fn=qn, loc=o, args=a)
        self.effects(e, s, o, a, f)
        if n in MATH or qn.startswith('std::numeric_limits'):
            return self.opaque(e, s, want, n, [self.val(s, x) for x in a], pure=True)
        return self.opaque(e, s, want, n, a)

    def hook(self, e, s, qn, n, o, a, want):
        return None

    def flat2(self, R):
        """is R a two-dimensional raster (one flat index per cell)?"""
        return self.stack and self.stack[-1][0].startswith(ARR2 + '::')

    def do_resize(self, e, s, o, a):
        pt = [self.u.types[p] for p in e.get('pt', [])]
        self.havoc(s, mk('cnt', o))
        if pt and ('Array2D<' in pt[0] or 'Array3D<' in pt[0]):
            src = a[0].a[0] if a[0].k == 'objat' else None
            fill = a[1] if len(a) > 1 else None
            if src is not None:
                for f in ('view_width', 'view_height'):
                    v = self.load(s, mk('fld', src, f))
                    self.store(s, mk('fld', o, f), v)
        else:
            w, h = self.val(s, a[0]), self.val(s, a[1])
            w, h = strip_ucast(w), strip_ucast(h)
            fill = a[2] if len(a) > 2 else None
            self.store(s, mk('fld', o, 'view_width'), w)
            self.store(s, mk('fld', o, 'view_height'), h)
            if not isc(w):
                self.widths.add(w)
        s.mem[mk('cnt', o)] = mk('fill', self.val(s, fill)) if fill is not None else mk('fill', C(0))

    CONT = ('std::vector', 'std::queue', 'std::stack', 'std::priority_queue', 'std::deque', 'std::array', 'std::map',
            'std::unordered_map', 'std::set', 'std::unordered_set', 'std::list', 'std::basic_string', 'std::pair',
            'richdem::GridCellZk_high_pq', 'richdem::GridCellZk_low_pq', 'radix_heap::')

    def std(self, e, s, qn, n, cls, o, a, want):
        if qn in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'):
            if a and a[0].k == 'objat':
                return self.lvret(e, s, a[0].a[0], want)
            return [self.ret(e, s, a[0], want)]
        if qn in ('std::max', 'std::min', 'std::fmax', 'std::fmin', 'fmax', 'fmin') and len(a) == 2:
            x, y = self.val(s, a[0]), self.val(s, a[1])
            if isc(x) and isc(y):
                return [self.ret(e, s, C((max if n.endswith('max') else min)(x.a[0], y.a[0])), want)]
            ii = isint_t(self.ty(e))
            m = n[-3:]
            if (s.facts.le(x, y)):
                return [self.ret(e, s, y if m == 'max' else x, want)]
            if (s.facts.le(y, x)):
                return [self.ret(e, s, x if m == 'max' else y, want)]
            p, q = (x, y) if x.id < y.id else (y, x)
            v = mk(m, p, q)
            for z in (x, y):
                self._cmp(s, '>=' if m == 'max' else '<=', v, z, ii)
            return [self.ret(e, s, v, want)]
        if n in MATH and (qn.startswith('std::') or '::' not in qn):
            vs = [self.val(s, x) for x in a]
            if n in ('abs', 'fabs'):
                if isc(vs[0]):
                    return [self.ret(e, s, C(abs(vs[0].a[0])), want)]
                return [self.ret(e, s, mk('abs', vs[0]), want)]
            self.emit('math', e, s, fn=n, args=vs)
            v = mk('fnv', n, *vs)
            self.stepfact(s, v)
            return [self.ret(e, s, v, want)]
        if qn == 'std::swap' and len(a) == 2 and a[0].k == 'objat' and a[1].k == 'objat':
            l1, l2 = a[0].a[0], a[1].a[0]
            t = mk('v', 'swap@%d' % id(e))
            self.copyobj(s, t, l1)
            self.copyobj(s, l1, l2)
            self.copyobj(s, l2, t)
            self.emit('wr', e, s, loc=l1, val=self.whole(s, l1))
            self.emit('wr', e, s, loc=l2, val=self.whole(s, l2))
            return [self.ret(e, s, C(0), want)]
        if cls == 'std::unique_ptr' and o is not None:
            star = mk('fld', o, '*')
            if n == 'operator[]':
                loc = mk('el', star, strip_ucast(self.val(s, a[0])))
                self.emit('elem', e, s, loc=loc, args=[self.val(s, a[0])])
                return self.lvret(e, s, loc, want)
            if n in ('operator*', 'operator->'):
                return self.lvret(e, s, star, want)
            if n == 'get':
                self.emit('call', e, s, fn=qn, loc=o, args=a)
                return [self.ret(e, s, mk('addr', star), want)]
            if n in ('reset', 'release', 'operator='):
                self.emit('call', e, s, fn=qn, loc=o, args=a)
                self.emit('wr', e, s, loc=o, val=None, info='opaque')
                self.havoc(s, o)
                return [self.ret(e, s, fresh(n), want)]
        if any(cls.startswith(c) for c in self.CONT) and o is not None:
            c = mk('cnt', o)
            if n in ('push', 'emplace', 'push_back', 'emplace_back', 'push_front', 'insert'):
                self.emit('push', e, s, loc=o, args=a, fn=n)
                if n in ('push_back', 'emplace_back') and 'vector' in cls:
                    pass
                self.wrote(c)
                f = self.u.fns.get(e.get('fn'))
                self.havoc(s, c)
                self.store(s, mk('size', o), fresh('size'))
                return self.opaque(e, s, want, n, a)
            if n in ('pop', 'pop_back', 'pop_front', 'clear', 'erase', 'resize', 'assign'):
                self.emit('pop' if 'pop' in n else 'cmod', e, s, loc=o, args=a, fn=n)
                self.havoc(s, c)
                self.store(s, mk('size', o), C(0) if n == 'clear' else fresh('size'))
                if n == 'resize' and len(a) == 2:
                    s.mem[c] = mk('fill', self.val(s, a[1]))
                return self.opaque(e, s, want, n, a)
            if n in ('top', 'front', 'back', 'top_value', 'top_key'):
                loc = mk('el', o, mk('c', n))
                self.emit('peek', e, s, loc=loc, fn=n)
                return self.lvret(e, s, loc, want)
            if n in ('operator[]', 'at'):
                i = self.val(s, a[0])
                loc = mk('el', o, strip_ucast(i))
                self.emit('elem', e, s, loc=loc, args=[i], fn=n)
                if n == 'operator[]' and ('map' in cls):
                    self.wrote(c)
                return self.lvret(e, s, loc, want)
            if n in ('size', 'length'):
                if 'std::array' in cls:
                    pass
                v = s.mem.get(mk('size', o)) or mk('size', self.whole(s, o))
                self.nonneg.setdefault(v, 0)
                self.emit('rd', e, s, loc=c, info='size')
                return [self.ret(e, s, v, want)]
            if n == 'empty':
                v = s.mem.get(mk('size', o)) or mk('size', self.whole(s, o))
                self.nonneg.setdefault(v, 0)
                self.emit('rd', e, s, loc=c, info='empty')
                return [self.ret(e, s, self.cmp('==', v, C(0), True), want)]
            if n == 'data':
                return [self.ret(e, s, mk('addr', o), want)]
            if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'count', 'reserve', 'c_str', 'capacity', 'shrink_to_fit', 'lower_bound', 'upper_bound'):
                self.emit('call', e, s, fn=qn, loc=o, args=a)
                return self.opaque(e, s, want, n, [self.whole(s, o)] + [self.objval(s, x) for x in a], pure=n in ('begin', 'end', 'cbegin', 'cend', 'find', 'count'))
            if n == 'operator=':
                if a and a[0].k == 'objat':
                    self.copyobj(s, o, a[0].a[0])
                else:
                    self.havoc(s, o)
                self.emit('wr', e, s, loc=o, val=self.whole(s, o), info='assign')
                return self.lvret(e, s, o, want)
        if n == 'operator=' and o is not None and a:
            f = self.u.fns.get(e.get('fn'))
            if f is None or f.get('defaulted') or not f.get('body'):
                if a[0].k == 'objat':
                    if o in self.rasters:
                        self.rasters.add(o)
                    self.copyobj(s, o, a[0].a[0])
                else:
                    self.store(s, o, a[0])
                self.emit('wr', e, s, loc=o, val=self.whole(s, o), info='assign')
                return self.lvret(e, s, o, want)
        if e.get('op') in ('->', '*') and o is not None and not a:
            f = self.u.fns.get(e.get('fn'))
            if f is None or not f.get('body'):
                loc = mk('deref', self.whole(s, o))
                if want == 'lv' or self.isclass(self.ty(e)):
                    return self.lvret(e, s, loc, want)
                if e['op'] == '->':
                    return [(s, mk('addr', loc))]
                return self.lvret(e, s, loc, want)
        return None

    # ------------------------------------------------------------ functions
    def inline(self, e, s, f, a, o, want, thisl=None):
        res = []
        rt = self.u.types[f['ret']]
        isref = rt.rstrip().endswith('&')
        for out in self.run_fn(f, s, a, o, e, thisl):
            if out.k == 'thr':
                out.st.dead = True
                res.append((out.st, fresh('never')))
                continue
            v = out.v
            if v is None:
                v = C(0)
            if isref:
                if v.k == 'objat':
                    res += self.lvret(e, out.st, v.a[0], want)
                else:
                    res += [self.ret(e, out.st, v, want)]
            else:
                if v.k == 'objat' and want == 'rv':
                    res.append((out.st, v))
                else:
                    res.append(self.ret(e, out.st, v, want))
        return res

    def frame(self):
        return '/'.join(str(x[2]) for x in self.stack)

    def run_fn(self, f, st, args, thisloc, node, thisl=None):
        """interpret f's body -> list of Out('ret'|'thr')"""
        self.stack.append((f['qn'], node.get('l', 0) if node else 0, self.fid(f)))
        self.active.append(f['fn'])
        savethis, savefile = self.thisloc, getattr(self, 'curfile', '')
        self.thisloc = thisloc if thisloc is not None else (thisl if thisl is not None else self.thisloc)
        self.curfile = self.u.files[f['file']]
        fr = self.frame()
        saved_env = dict(st.env)
        try:
            for i, p in enumerate(f['p']):
                pt = self.u.types[p['t']]
                loc = mk('v', '%s@%d~%s' % (p['n'], p['d'], fr))
                if i < len(args):
                    a = args[i]
                    if pt.rstrip().endswith('&'):
                        if a.k == 'objat':
                            st.env[p['d']] = a.a[0]
                        else:
                            st.mem[loc] = a
                            st.env[p['d']] = loc
                    else:
                        for k in [k for k in st.mem if self.under(k, loc)]:
                            del st.mem[k]
                        if a.k == 'objat':
                            self.copyobj(st, loc, a.a[0])
                            if a.a[0] in self.rasters:
                                self.rasters.add(loc)
                        else:
                            st.mem[loc] = a
                        st.env[p['d']] = loc
                else:
                    st.env[p['d']] = loc
            outs = [Out('n', st)]
            for ini in f.get('inits', []):
                n2 = []
                for o in outs:
                    n2 += self.do_init(f, ini, o.st)
                outs = n2
            res = []
            for o in outs:
                res += self.stmt(f['body'], o.st)
            fin = []
            for o in res:
                o.st.env = {**o.st.env, **saved_env}
                if o.k == 'thr':
                    fin.append(o)
                else:
                    fin.append(Out('ret', o.st, o.v))
            if len(fin) > 6:
                fin = self.mergeouts(fin)
            return fin
        finally:
            self.stack.pop()
            self.active.pop()
            self.thisloc = savethis
            self.curfile = savefile

    _fids = {}

    def fid(self, f):
        return Engine._fids.setdefault(f['fn'], len(Engine._fids))

    def do_init(self, f, ini, st):
        e = ini.get('e')
        if e is None:
            return [Out('n', st)]
        if 'f' in ini:
            loc = mk('fld', self.thisloc, ini['f'])
            return [Out('n', s) for s in self.init_into(e, st, loc)]
        # base or delegating: run the constructor on this
        if e['k'] == 'ctor':
            fn = self.u.fns.get(e.get('fn'))
            res = []
            for s, args in self.args(e, e['a'], st):
                if fn is not None and fn.get('body') and self.fn_ok(fn):
                    for o in self.run_fn(fn, s, args, self.thisloc, e):
                        res.append(Out('n', o.st))
                else:
                    res.append(Out('n', s))
            return res
        return [Out('n', st)]

    def init_into(self, e, st, loc):
        """initialise loc from e -> [st]"""
        if e['k'] == 'ctor':
            return [s for s, _ in self.construct(e, st, loc)]
        if e['k'] == 'lambda':
            r = []
            for s, v in self.ev(e, st):
                s.mem[loc] = v
                r.append(s)
            return r
        r = []
        for s, v in self.ev(e, st):
            if v.k == 'objat':
                self.copyobj(s, loc, v.a[0])
                if v.a[0] in self.rasters:
                    self.rasters.add(loc)
            else:
                for k in [k for k in s.mem if self.under(k, loc)]:
                    del s.mem[k]
                self.wrote(self.base(loc))
                s.mem[loc] = v
                if v.k == 'ilist':
                    for i, x in enumerate(v.a):
                        s.mem[mk('el', loc, C(i))] = x
                    rec = None
                    t = bare(self.ty(e))
                    for q, rc in self.u.records.items():
                        if t == self.u.types[rc['t']]:
                            rec = rc
                    if rec is not None:
                        for fl, x in zip(rec['fields'], v.a):
                            s.mem[mk('fld', loc, fl['n'])] = x
            r.append(s)
        return r

    # ------------------------------------------------------------ statements
    def mergeouts(self, outs):
        groups = {}
        for o in outs:
            key = (o.k, o.v, tuple(sorted(((k.id, v.id) for k, v in o.st.mem.items()))), tuple(sorted((k, id(v) if not isinstance(v, (int, str, tuple, T, bool, frozenset)) else v) for k, v in o.st.tags.items())) if self.hashable(o.st.tags) else id(o))
            groups.setdefault(key, []).append(o)
        r = []
        for g in groups.values():
            if len(g) == 1:
                r.append(g[0])
            else:
                st = g[0].st
                st.facts = Facts.meet([o.st.facts for o in g])
                r.append(Out(g[0].k, st, g[0].v))
        return r

    def hashable(self, tags):
        try:
            hash(tuple(sorted(tags.items(), key=lambda kv: kv[0])))
            return True
        except TypeError:
            return False

    def cap(self, outs):
        """bound the number of normal-flow partitions"""
        if len(outs) <= 12:
            return outs
        outs = self.mergeouts(outs)
        if len(outs) <= self.pol.maxstates:
            return outs
        # forced join of 'n' states (per tag class)
        res = [o for o in outs if o.k != 'n']
        groups = {}
        for o in outs:
            if o.k == 'n':
                key = tuple(sorted((k, v) for k, v in o.st.tags.items())) if self.hashable(o.st.tags) else id(o)
                groups.setdefault(str(key), []).append(o)
        for g in groups.values():
            if len(g) <= 4:
                res += g
            else:
                res.append(Out('n', self.join([o.st for o in g])))
        return res

    def join(self, sts):
        r = sts[0].copy()
        keys = set()
        for s in sts:
            keys |= set(s.mem)
        for k in sorted(keys, key=lambda t: t.id):
            vs = [s.mem.get(k) or self.default(s, k) for s in sts]
            if all(v is vs[0] for v in vs):
                r.mem[k] = vs[0]
            else:
                p = fresh('phi')
                r.mem[k] = p
                if all(v in self.nonneg or (isc(v) and v.a[0] >= 0) for v in vs):
                    self.nonneg[p] = 0
        r.facts = Facts.meet([s.facts for s in sts])
        for s in sts[1:]:
            for d, l in s.env.items():
                r.env.setdefault(d, l)
        return r

    def stmt(self, x, st):
        if x is None:
            return [Out('n', st)]
        if st.dead:
            return [Out('thr', st)]
        k = x['k']
        outs = getattr(self, 's_' + k, self.s_other)(x, st)
        for o in outs:
            if o.st.dead and o.k != 'thr':
                o.k = 'thr'
        return outs

    def s_null(self, x, st):
        return [Out('n', st)]

    def s_other(self, x, st):
        if 'ch' in x:
            return self.block(x['ch'], st)
        return [Out('n', st)]

    def s_block(self, x, st):
        return self.block(x['s'], st)

    def block(self, ss, st):
        cur = [Out('n', st)]
        done = []
        i = 0
        labels = {s['n']: j for j, s in enumerate(ss) if s and s['k'] == 'label'}
        for j, s in enumerate(ss):
            nxt = []
            if s and s['k'] == 'label':
                # gotos caught here
                for o in [o for o in done if o.k == 'goto' and o.v == s['n']]:
                    done.remove(o)
                    cur.append(Out('n', o.st))
            for o in cur:
                nxt += self.stmt(s, o.st)
            cur = self.cap([o for o in nxt if o.k == 'n'])
            done += [o for o in nxt if o.k != 'n']
        return cur + done

    def s_label(self, x, st):
        return self.stmt(x['s'], st)

    def s_goto(self, x, st):
        return [Out('goto', st, x['n'])]

    def s_expr(self, x, st):
        return [Out('thr' if s.dead else 'n', s) for s, v in self.ev(x['e'], st)]

    def s_decl(self, x, st):
        cur = [st]
        for v in x['v']:
            nxt = []
            for s in cur:
                nxt += self.vardecl(v, s)
            cur = nxt
        return [Out('n', s) for s in cur]

    def vardecl(self, v, s):
        if v.get('static'):
            loc = mk('gl', 'static:%s:%d' % (v['n'], v['d']))
            s.env[v['d']] = loc
            return [s]
        loc = mk('v', '%s@%d~%s' % (v['n'], v['d'], self.frame()))
        t = self.u.types[v['t']]
        if v.get('refty') and v.get('init') and not v.get('bind'):
            r = []
            for s2, l in self.lv(v['init'], s):
                s2.env[v['d']] = l
                r.append(s2)
            return r
        s.env[v['d']] = loc
        if bare(t).startswith(ARR2 + '<') or bare(t).startswith(ARR3 + '<'):
            self.rasters.add(loc)
        for k in [k for k in s.mem if self.under(k, loc) or (k.k == 'size' and k.a[0] is loc)]:
            del s.mem[k]
        if v.get('init'):
            r = self.init_into(v['init'], s, loc)
        else:
            s.mem[loc] = mk('undef', v['n'])
            r = [s]
        for s2 in r:
            if bare(t) in UNSIGNED:
                vv = s2.mem.get(loc)
                if vv is not None and vv.k in ('sym', 'ld', 'fv', 'rd'):
                    self.nonneg.setdefault(vv, 0)
            self.emit('decl', v, s2, loc=loc, val=s2.mem.get(loc), info=v)
        if v.get('bind'):
            for s2 in r:
                for i, b in enumerate(v['bind']):
                    s2.env[b['d']] = mk('fld', loc, ('first', 'second', 'third', 'f3', 'f4', 'f5')[min(i, 5)])
        return r

    def s_if(self, x, st):
        outs = [Out('n', st)]
        if x.get('init'):
            outs = self.stmt(x['init'], st)
        if x.get('cv'):
            outs = [o2 for o in outs for o2 in self.stmt(x['cv'], o.st)]
        res = []
        for o in outs:
            if o.k != 'n':
                res.append(o)
                continue
            for s, b in self.cond(x['c'], o.st):
                if s.dead:
                    res.append(Out('thr', s))
                elif b:
                    res += self.stmt(x['a'], s)
                else:
                    res += self.stmt(x.get('b'), s)
        return self.cap(res)

    def s_return(self, x, st):
        if x.get('e') is None:
            self.emit('return', x, st)
            return [Out('ret', st)]
        rt = self.u.types[self.u.fns[self.active[-1]]['ret']]
        r = []
        if rt.rstrip().endswith('&'):
            for s, l in self.lv(x['e'], st):
                self.emit('return', x, s, val=mk('objat', l))
                r.append(Out('ret', s, mk('objat', l)))
        else:
            for s, v in self.ev(x['e'], st):
                self.emit('return', x, s, val=v)
                r.append(Out('thr' if s.dead else 'ret', s, v))
        return r

    def s_break(self, x, st):
        return [Out('brk', st)]

    def s_continue(self, x, st):
        return [Out('cont', st)]

    def s_try(self, x, st):
        self.tries = getattr(self, 'tries', 0) + 1
        s0 = st.copy()
        log = set()
        self.wlog.append(log)
        st.tags['__try'] = st.tags.get('__try', 0) + 1
        outs = self.stmt(x['b'], st)
        self.wlog.pop()
        res = []
        thr = []
        for o in outs:
            o.st.tags['__try'] = o.st.tags.get('__try', 1) - 1
            (thr if o.k == 'thr' else res).append(o)
        for h in x['h']:
            s = s0.copy()
            for l in log:
                self.havoc(s, l)
            res += self.stmt(h['b'], s)
            if h['t'] == '...':
                thr = []
        return res + thr

    def s_switch(self, x, st):
        outs = [st]
        if x.get('init'):
            outs = [o.st for o in self.stmt(x['init'], st)]
        res = []
        body = x['b']['s'] if x['b'] and x['b']['k'] == 'block' else [x['b']]
        # flatten case labels
        flat = []
        for s in body:
            labs = []
            while s and s['k'] in ('case', 'default'):
                labs.append(s.get('v') if s['k'] == 'case' else 'default')
                s = s['s']
            flat.append((labs, s))
        cases = [(i, l) for i, (ls, _) in enumerate(flat) for l in ls]
        for s0 in outs:
            for s, v in self.ev(x['c'], s0):
                vals = []
                for i, l in cases:
                    if l == 'default':
                        continue
                    cv = self.ev(l, s)[0][1]
                    vals.append(cv)
                    s1 = s.copy()
                    if not self.assume(s1, self.cmp('==', v, cv, True), True):
                        continue
                    res += self.switch_run([y for _, y in flat[i:]], s1)
                s1 = s.copy()
                ok = True
                for cv in vals:
                    if not self.assume(s1, self.cmp('==', v, cv, True), False):
                        ok = False
                        break
                if ok:
                    di = [i for i, l in cases if l == 'default']
                    if di:
                        res += self.switch_run([y for _, y in flat[di[0]:]], s1)
                    else:
                        res.append(Out('n', s1))
        return self.cap(res)

    def switch_run(self, ss, st):
        r = []
        for o in self.block(ss, st):
            if o.k == 'brk':
                o = Out('n', o.st)
            r.append(o)
        return r

    # ------------------------------------------------------------ loops
    def s_for(self, x, st):
        res = []
        outs = self.stmt(x.get('init'), st) if x.get('init') else [Out('n', st)]
        for o in outs:
            if o.k != 'n':
                res.append(o)
                continue
            res += self.loop(x, o.st, x.get('c'), x.get('inc'), x['b'], False)
        return self.cap(res)

    def s_while(self, x, st):
        return self.cap(self.loop(x, st, x['c'], None, x['b'], False))

    def s_do(self, x, st):
        return self.cap(self.loop(x, st, x['c'], None, x['b'], True))

    def s_rfor(self, x, st):
        res = []
        for s, l in self.lv(x['r'], st):
            res += self.loop(x, s, None, None, x['b'], False, rng=l)
        return self.cap(res)

    def iteration(self, x, head, c, inc, body, isdo, rng):
        """one generic iteration -> (back states, exit outs, other outs)"""
        back, exits, other = [], [], []
        starts = []
        if rng is not None:
            ex = head.copy()
            exits.append(Out('n', ex))
            v = x['var']
            s = head
            loc = mk('v', '%s@%d~%s' % (v['n'], v['d'], self.frame()))
            el = mk('el', rng, mk('c', 'it%d' % id(x)))
            # the iterated element is an arbitrary one: forget previous binding
            for k in [k for k in s.mem if self.under(k, el)]:
                del s.mem[k]
            s.mem[el] = fresh('item')
            t = self.u.types[v['t']]
            if v.get('refty'):
                s.env[v['d']] = el
            else:
                s.env[v['d']] = loc
                self.copyobj(s, loc, el)
            if v.get('bind'):
                tgt = s.env[v['d']]
                for i, b in enumerate(v['bind']):
                    s.env[b['d']] = mk('fld', tgt, ('first', 'second', 'third', 'f3', 'f4', 'f5')[min(i, 5)])
            if isint_t(t) and bare(t) in UNSIGNED:
                self.nonneg.setdefault(s.mem[el], 0)
            self.emit('iter', x, s, loc=el, args=[rng])
            starts.append(s)
        elif c is not None and not isdo:
            for s, b in self.cond(c, head):
                if s.dead:
                    other.append(Out('thr', s))
                elif b:
                    starts.append(s)
                else:
                    exits.append(Out('n', s))
        else:
            starts.append(head)
        for s in starts:
            for o in self.stmt(body, s):
                if o.k in ('n', 'cont'):
                    tails = [o.st]
                    if isdo and c is not None:
                        tails = []
                        for s2, b in self.cond(c, o.st):
                            if b:
                                tails.append(s2)
                            else:
                                exits.append(Out('n', s2))
                    for s2 in tails:
                        if inc is not None:
                            for s3, _ in self.ev(inc, s2):
                                back.append(s3)
                        else:
                            back.append(s2)
                elif o.k == 'brk':
                    exits.append(Out('n', o.st, 'brk'))
                else:
                    other.append(o)
        return back, exits, other

    def unrolled(self, x, st, c, inc, body, n):
        """execute a loop whose condition is decided in every iteration; None when it is not"""
        cur, done = [st], []
        for _ in range(n + 1):
            nxt = []
            for s in cur:
                for s2, b in self.cond(c, s):
                    if s2.dead:
                        done.append(Out('thr', s2))
                        continue
                    if not b:
                        done.append(Out('n', s2))
                        continue
                    for o in self.stmt(body, s2):
                        if o.k in ('n', 'cont'):
                            if inc is not None:
                                nxt += [s3 for s3, _ in self.ev(inc, o.st)]
                            else:
                                nxt.append(o.st)
                        elif o.k == 'brk':
                            done.append(Out('n', o.st, 'brk'))
                        else:
                            done.append(o)
            if not nxt:
                return self.cap(done)
            if len(nxt) > self.pol.maxstates:
                nxt = [o.st for o in self.cap([Out('n', s) for s in nxt])]
            cur = nxt
        return None

    def decided_header(self, st, c):
        """does the condition compare constants in this state?"""
        self.quiet += 1
        try:
            r = self.cond(c, st.copy())
        finally:
            self.quiet -= 1
        return len(r) == 1

    def loop(self, x, st, c, inc, body, isdo, rng=None):
        lkey = (id(x), self.frame()) + self.loopkey(st)
        n = getattr(self.pol, 'unroll', 0)
        if n and rng is None and c is not None and not isdo and self.unrollable(x, c, st):
            self.quiet += 1
            try:
                probe = self.unrolled(x, st.copy(), c, inc, body, n)
            finally:
                self.quiet -= 1
            if probe is not None:
                return probe if self.quiet else self.unrolled(x, st, c, inc, body, n)
        pre = st
        marker = ((id(x), x),)

        def run(M, cands, log):
            head = pre.copy()
            self.prep_head(head, M, lkey, cands)
            head.loops = pre.loops + marker
            h = head.copy()
            self.wlog.append(log)
            try:
                return (head,) + self.iteration(x, h, c, inc, body, isdo, rng)
            finally:
                self.wlog.pop()

        self.quiet += 1
        M = self.loopM.get(lkey)
        for _round in range(6):
            if M is None:
                # ---- discover the written locations
                M = set()
                for _ in range(6):
                    log = set()
                    head, back, ex, oth = run(M, None, log)
                    new = log - M
                    if not new:
                        break
                    M |= new
                self.loopM[lkey] = M
                self.loopC[lkey] = self.classify(pre, head, back, M)
            cands = self.candidates(pre, self.loopC[lkey])
            # ---- inductive check
            again = False
            res = None
            for _ in range(5):
                log = set()
                head, back, ex, oth = run(M, cands, log)
                if log - M:
                    M = M | log
                    self.loopM[lkey] = M
                    head, back, ex, oth = run(M, None, set())
                    self.loopC[lkey] = self.classify(pre, head, back, M)
                    again = True
                    break
                bad = [cd for cd in cands if any(not self.holds(bs, cd) for bs in back)]
                if not bad:
                    res = (head, back, ex, oth)
                    break
                cands = [cd for cd in cands if cd not in bad]
                badk = {(l, rel, w) for l, rel, t, w in bad}
                self.loopC[lkey] = [q for q in self.loopC[lkey] if q not in badk]
            if not again:
                break
        self.quiet -= 1
        if res is None:
            cands = []
        if self.quiet and res is not None:
            head, back, ex, oth = res
        else:
            # ---- final pass with events
            head = pre.copy()
            self.prep_head(head, M, lkey, cands)
            head.loops = pre.loops + marker
            self.emit('loop', x, head, info=(pre, rng))
            entry = head.copy()
            log = set()
            self.wlog.append(log)
            try:
                back, ex, oth = self.iteration(x, head, c, inc, body, isdo, rng)
            finally:
                self.wlog.pop()
            if self.loop_end is not None and not self.quiet:
                self.loop_end(self, x, entry, back, ex, oth)
            # what an iteration leaves behind beyond the values of variables is carried over two more
            carried = [bs for bs in back if self.carry(entry, bs)][:12]
            self.wlog.append(set())
            for _ in range(3):
                more = []
                for bs in carried:
                    b2, e2, o2 = self.iteration(x, bs.copy(), c, inc, body, isdo, rng)
                    ex = ex + e2
                    oth = oth + o2
                    more += b2
                carried = more[:12]
            self.wlog.pop()
        for w in self.wlog:
            w |= M
        for s in ex + oth:
            s.st.loops = pre.loops
        if len(ex) > 3:
            ex = self.mergeouts(ex)
            if len(ex) > self.pol.loopexits:
                groups = {}
                for o in ex:
                    key = str(sorted(((k, str(v)) for k, v in o.st.tags.items())))
                    groups.setdefault(key, []).append(o)
                ex = [g[0] if len(g) == 1 else Out('n', self.join([o.st for o in g])) for g in groups.values()]
        self.emit_all('loopend', x, [o.st for o in ex])
        return self.cap(ex + oth)

    keepconst = False

    def loopkey(self, st):
        return ()

    def carry(self, entry, bs):
        return False

    def unrollable(self, x, c, st):
        return self.decided_header(st, c)

    def emit_all(self, kind, x, sts):
        for s in sts:
            self.emit(kind, x, s)

    def local_only(self, l, pre):
        """location rooted in a variable that did not exist before the loop"""
        return False

    def scalars(self, M):
        return [l for l in M if l.k in ('v', 'fld', 'gl')]

    def dead_local(self, r, cur):
        """local of a frame that is not active"""
        if r.k != 'v' or not isinstance(r.a[0], str) or '~' not in r.a[0]:
            return False
        fr = r.a[0].split('~', 1)[1].split(':')[0]
        return not (cur == fr or cur.startswith(fr + '/'))

    def prep_head(self, head, M, lkey, cands):
        cur = self.frame()
        roots = {}
        for k in head.mem:
            roots.setdefault(self.root(k), []).append(k)
        for r, ks in list(roots.items()):
            if self.dead_local(r, cur):
                for k in ks:
                    del head.mem[k]
                del roots[r]
        for l in sorted(M, key=lambda t: t.id):
            r = self.root(l)
            if r not in roots and (r.k == 'heap' or r.k == 'v' and isinstance(r.a[0], str) and (r.a[0].startswith('tmp') or self.dead_local(r, cur))):
                continue
            self.quiet += 1
            w = self.wlog
            self.wlog = []
            oldt = head.mem.get(l)
            self.havoc(head, l, 'L')
            if l.k == 'v' or l.k == 'fld':
                if oldt is not None and (oldt in self.nonneg or (isc(oldt) and isinstance(oldt.a[0], int) and oldt.a[0] >= 0)):
                    pass
            self.wlog = w
            self.quiet -= 1
        # deterministic names for havocked scalars so candidate facts can refer to them
        if cands:
            for (l, rel, t, w_) in cands:
                if rel == '==':
                    head.mem[l] = t
                    continue
                v = self.load(head, l)
                self._cmp(head, rel, v, t, True)

    def classify(self, pre, head, back, M):
        """which integer locations look monotone -> [(loc, rel, which)]"""
        res = []
        for l in self.scalars(M):
            v0 = pre.mem.get(l)
            if v0 is None or not self.scalarval(v0):
                continue
            hv = self.load(head, l)
            ups = downs = True
            for b in back:
                bv = b.mem.get(l)
                if bv is None:
                    ups = downs = False
                    break
                d = sub(bv, hv)
                if isc(d):
                    if d.a[0] < 0:
                        ups = False
                    if d.a[0] > 0:
                        downs = False
                else:
                    if not b.facts.le(hv, bv):
                        ups = False
                    if not b.facts.le(bv, hv):
                        downs = False
            if ups:
                res.append((l, '>=', 'init'))
            if downs:
                res.append((l, '<=', 'init'))
            if not ups:
                res.append((l, '>=', 'zero'))
            if isc(v0) and isinstance(v0.a[0], int) and back and all(b.mem.get(l) is v0 or self.keepconst and b.mem.get(l) is hv for b in back):
                res.append((l, '==', 'init'))
        return res

    def scalarval(self, v0):
        if isc(v0):
            return isinstance(v0.a[0], int)
        return v0.k not in ('undef', 'obj', 'objat', 'addr', 'str', 'lam', 'c', 'ilist', 'mkobj')

    def candidates(self, pre, cls):
        res = []
        for l, rel, w in cls:
            v0 = pre.mem.get(l)
            if v0 is None or not self.scalarval(v0):
                continue
            if w == 'init':
                res.append((l, rel, v0, w))
            elif pre.facts.le(C(0), v0):
                res.append((l, rel, C(0), w))
        return res

    def holds(self, b, cd):
        l, rel, t, w = cd
        v = self.load(b, l)
        if rel == '==':
            return v is t
        return b.facts.le(t, v) if rel == '>=' else b.facts.le(v, t)

    # ------------------------------------------------------------ OpenMP
    def s_omp(self, x, st):
        d = x['dir']
        if d in ('barrier', 'flush', 'taskwait'):
            self.emit('omp', x, st, info=d)
            return [Out('n', st)]
        st.omp = st.omp + (x_omp(x),)
        saved = {}
        priv = []
        for cl in x.get('cl', []):
            if cl['n'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                for v in cl['vars']:
                    if isinstance(v, int):
                        priv.append(v)
        for v in priv:
            l = st.env.get(v)
            saved[v] = l
        self.emit('omp', x, st, info=d)
        outs = self.stmt(x['b'], st)
        for o in outs:
            o.st.omp = o.st.omp[:-1]
        return outs

    # ------------------------------------------------------------ entry
    def analyse(self, f, setup=None):
        """interpret function f from an unconstrained state"""
        self.stack = []
        self.active = []
        self.rasters = set()
        self.widths = {self.W}
        self.wlog = []
        self.steps = 0
        self.t0 = time.time()
        self.quiet = 0
        self.curfile = self.u.files[f['file']]
        self.thisloc = mk('v', 'this')
        st = State(self)
        args = []
        for p in f['p']:
            t = self.u.types[p['t']]
            loc = mk('v', '%s@%d' % (p['n'], p['d']))
            if bare(t).startswith(ARR2 + '<') or bare(t).startswith(ARR3 + '<'):
                self.rasters.add(loc)
            if t.rstrip().endswith('&') or self.isclass(t):
                args.append(mk('objat', loc))
            else:
                v = mk('ld', loc)
                if bare(t) in UNSIGNED:
                    self.nonneg.setdefault(v, 0)
                args.append(v)
        if setup:
            setup(self, st, f, args)
        return self.run_fn(f, st, args, self.thisloc, None)


def x_omp(x):
    return mk('omp', id(x), x['dir'], x.get('l', 0))
