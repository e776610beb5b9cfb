"""main of every application and distributed program is interpreted with its own functions inlined.  With the number of
arguments unknown: every read of argv[k] must be on a path on which k < argc is established.  With it fixed to 1, 2, ... : a run
without arguments fails; a run that succeeds has read arguments, and all the arguments it accepts are used by some accepted
run.  Where a usage line documents positional arguments, values are traced from argv[k] through strings, conversions and calls:
an argument documented as output names what is saved and is never opened for reading, one documented as input is opened and
never saved to, and a number is passed to no parameter named for another documented argument."""
import os
import re
from common import *
from p06 import progfile, elem, ABORT
from p20 import strip

RULE = __doc__
SRC = {'peekGDALType', 'getGDALDimensions', 'peekLayoutType', 'peekLayoutTileSize', 'LoadGDAL', 'LayoutfileReader', 'GDALOpen', 'loadNative'}
DST = {'saveGDAL', 'saveUnifiedGDAL', 'LayoutfileWriter', 'basic_ofstream', 'saveNative'}


class E24(Engine):
    one_type = True

    def hook(self, e, s, qn, n, o, a, want):
        if n in ABORT and o is None:
            v = self.val(s, a[0]) if a else C(1)
            if n in ('exit', '_exit', 'quick_exit') and isc(v) and v.a[0] == 0:
                self.done.append(s)
            return []
        if n in ('CommInit', 'MPI_Init', 'PrintRichdemHeader'):      # argc and argv stay what they were
            return self.opaque(e, s, want, n) if n[0] == 'P' else [(s, C(0))]
        if n == 'CommRank':         # the coordinator is the process that is given the arguments
            return [(s, C(0))]
        if qn in ('std::basic_string::operator=', 'std::basic_string::operator+=', 'std::basic_string::assign', 'std::basic_string::append') and o is not None:
            v = fresh('str')
            self.org[v] = frozenset().union(*[self.origins(s, x) for x in a], self.origins(s, mk('objat', o)) if n in ('operator+=', 'append') else frozenset())
            s.mem[o] = v
            return [(s, o if want == 'lv' else mk('objat', o))]
        if n in ('operator==', 'operator!=') and len(a) == 2 and o is None:
            v = [s.mem.get(x.a[0]) if x.k == 'objat' else x for x in a]
            if v[0] is not None and v[1] is not None and any(empty(x) for x in v) and any(x.k == 'str' for x in v):
                t = [x for x in v if x.k == 'str'][0]
                return [(s, C((t.a[0] == '') == (n == 'operator==')))]
        if n == 'peekGDALType' and self.one_type:       # one stored data type stands for all: P06 decides the dispatch
            self.emit('call', e, s, fn=qn, loc=o, args=a)
            return [(s, C(6))]
        return Engine.hook(self, e, s, qn, n, o, a, want)

    def construct(self, e, st, loc):
        r = Engine.construct(self, e, st, loc)
        if bare(self.ty(e)).startswith('std::basic_string') and not e.get('a') and not e.get('copy'):
            for s, l in r:
                s.mem[l] = mk('mkobj', 'std::basic_string', fresh('obj'))
        return r

    def opaque(self, e, s, want, name, a=(), pure=False):
        r = Engine.opaque(self, e, s, want, name, a, pure)
        if self.track:
            o = frozenset().union(*[self.origins(s, x) for x in a]) if a else frozenset()
            if o:
                for s2, v in r:
                    for w in (v, s2.mem.get(v), s2.mem.get(v.a[0]) if v.k == 'objat' else None):
                        if isinstance(w, T) and w not in self.org:
                            self.org[w] = o
        return r

    def origins(self, s, v):
        """which argv[k] the value is made from"""
        seen, todo, r = set(), [v], set()
        while todo:
            x = todo.pop()
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            if x in self.org:
                r |= self.org[x]
                continue
            k = self.argk(x)
            if k is not None:
                r.add(k)
                continue
            if x.k == 'objat':
                m = s.mem.get(x.a[0])
                todo += [m] if m is not None else []
                continue
            if x.k in ('c', 'ld', 'sym', 'phi', 'v', 'fld', 'el'):
                continue
            todo += [y for y in x.a if isinstance(y, T)]
        return frozenset(r)

    def argk(self, x):
        """k when x is the value of argv[k]"""
        if x.k in ('rd', 'ld') and self.argv is not None:
            base, ix = (x.a[0], x.a[-1]) if x.k == 'rd' else (None, None)
            if base is not None and base in (mk('ct', mk('deref', self.argv)), mk('ct', mk('ld', mk('deref', self.argv)))) and isinstance(ix, T) and isc(ix):
                return ix.a[0]
        return None


def empty(v):
    return v.k == 'mkobj' and v.a[0] == 'std::basic_string' and len(v.a) == 2


class Pol(Policy):
    maxdepth = 5
    maxstates = 60

    def inline(self, eng, f, depth):
        return progfile(eng.u, f) and Policy.inline(self, eng, f, depth) and (elem(eng.u, f) in (None, 'float') or not eng.raster(f)) and not eng.heavy(f)


def usage(u, f):
    """the documented forms: lists of labels"""
    r = []
    for y in nodes(f['body'], lambda y: y['k'] == 'str'):
        v = y.get('v', '')
        if re.match(r'^\s*<[^>]+>(\s+[<\[][^>\]]+[>\]])*\s*$', v) and v[:1] in ' <':
            r.append(re.findall(r'[<\[]([^>\]]+)[>\]]', v))
    return r


def role(l):
    l = l.lower()
    if re.search(r'\bout', l):
        return 'out'
    if re.search(r'\b(input|dem|raster|layout|file)\b|inputfile|input file|of this file', l) and 'new' not in l and '/' not in l:
        return 'in'
    return None


def words(l):
    l = re.sub(r'([a-z])([A-Z])', r'\1 \2', l).lower()
    return [w for w in re.split(r'[^a-z0-9]+', l) if len(w) > 2]


def score(label, pname):
    return sum(1 for w in words(label) for p in words(pname) if w.startswith(p) or p.startswith(w))


def run(c, tier):
    us = units.load(units.apps() + units.programs())
    pmap(c, us, one)
    c.need('given', 40)
    c.need('used', 30)
    c.need('role', 20)


def mains(u):
    return [f for f in u.fns.values() if f['qn'] == 'main' and f.get('body') and len(f['p']) >= 2]


def engine(u, f, on, track):
    e = E24(u, Pol(), on)
    e.done = []
    e.org = {}
    e.track = track
    e.argv = None
    memo = {}

    def uses_args(g, d=0):
        """is g (or what it calls in the program) given the arguments or the decision how to end?"""
        if g['fn'] not in memo:
            memo[g['fn']] = False
            memo[g['fn']] = any(bare(u.types[p['t']]).startswith('char *') for p in g['p'])
        return memo[g['fn']]
    e.raster = lambda g: any('Array2D<' in u.types[p['t']] for p in g['p'])
    small = not ('/programs/' in u.file(f))
    e.heavy = lambda g: not small and not uses_args(g)
    return e


def name(u):
    n = os.path.basename(u.src)[:-4]
    return os.path.basename(os.path.dirname(u.src)) if n == 'main' else n


def failed(o):
    return o.k in ('thr', 'throw') or o.v is not None and isinstance(o.v, T) and isc(o.v) and o.v.a[0] != 0


def go(e, f, setup):
    try:
        return e.analyse(f, setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])


def index(eng, ev):
    """k of a read of argv[k]"""
    l = ev.loc
    if ev.kind != 'rd' or not isinstance(l, T) or len(l.a) < 2 or l.a[0] != mk('deref', eng.argv):
        return None
    return l.a[-1]


def one(c, u):
    fs = mains(u)
    if not fs:
        raise units.ToolError('no main in ' + u.src)
    f = fs[0]
    app = name(u)
    c.fn(app)
    w = where(u, f)
    # --- every read is of an argument that was given
    good, bad = set(), {}

    def setup(n):
        def go(eng, st, f, args):
            eng.argv = args[1]
            if n is None:
                st.facts.le(C(1), args[0]) or eng.assume(st, eng.cmp('>=', args[0], C(1), True), True)
                eng.argc = args[0]
            else:
                args[0] = C(n)
        return go

    def on(eng, ev, st):
        k = index(eng, ev)
        if k is None:
            return
        k0 = strip(k)
        if isc(k0) and k0.a[0] <= 0:
            return
        key = 'argv[%s]' % (k0.a[0] if isc(k0) else 'i')
        if st.facts.lt(k0, eng.argc):
            good.add((key, ev.line))
        else:
            bad[key, ev.line] = evwhere(ev)
    e = engine(u, f, on, False)
    go(e, f, setup(None))
    for key, line in sorted(good | set(bad)):
        if (key, line) in bad:
            c.bad('given', '%s %s' % (app, key), '%s reads %s on a path on which it may not have been given' % (app, key), bad[key, line])
        else:
            c.ok('given', '%s %s line %d' % (app, key, line))
    cli = bool(nodes(f['body'], lambda y: y['k'] in ('ctor', 'call') and str(y.get('qn', '')).startswith('CLI::')))
    if cli:
        return
    if not good and not bad:
        # the arguments are taken over as a whole (a container made from argv..argv+argc): its accesses are the container's
        c.assume('%s: arguments copied into a container as a whole' % app)
        return
    # --- with a fixed number of arguments
    forms = usage(u, f)
    top = max([len(x) for x in forms] + [8]) + 2
    for n in range(1, top + 1):
        fixed(c, u, f, app, n, [x for x in forms if len(x) == n - 1], setup, w)


def fixed(c, u, f, app, n, forms, setup, w):
    flow = {}       # k -> {'src'/'dst': where}
    star = []
    params = {}     # k -> {parameter name}

    def on(eng, ev, st):
        k = index(eng, ev)
        if k is not None:
            k = strip(k)
            if not isc(k):
                star.append(k)
            st.tags['read'] = st.tags.get('read', frozenset()) | {k.a[0] if isc(k) else '*'}
        if ev.kind not in ('call', 'ctor', 'enter') or not ev.args or not isinstance(ev.node, dict):
            return
        fn = str(ev.fn)
        g = u.fns.get(ev.node.get('fn'))
        nm = fn.rsplit('::', 1)[-1]
        for i, a in enumerate(ev.args):
            if not isinstance(a, T):
                continue
            o = eng.origins(st, a)
            if not o:
                continue
            if nm in SRC or nm in ('Array2D', 'A2Array2D') and i == 0:
                kind = 'src'
            elif nm in DST:
                kind = 'dst'
            else:
                kind = None
            for k in o:
                if kind:
                    flow.setdefault(k, {}).setdefault(kind, evwhere(ev))
                if g is not None and i < len(g['p']) and g['p'][i].get('n') and len(o) == 1 and isint_or_float(u.types[g['p'][i]['t']]) and not fn.startswith('std::'):
                    params.setdefault(k, {}).setdefault(g['p'][i]['n'], evwhere(ev))
    e = engine(u, f, on, True)
    outs = go(e, f, setup(n))
    live = [(o.st.tags.get('read', frozenset())) for o in outs if not failed(o)] + [s.tags.get('read', frozenset()) for s in e.done]
    key = '%s with %d arguments' % (app, n - 1)
    if n == 1 and live:
        c.bad('used', key, '%s ends with success although no argument was given' % app, w)
        return
    if star:        # a loop over the arguments
        c.ok('used', key)
        return
    if live and any(not r - {0} for r in live):
        c.bad('used', key, '%s ends with success without having used its arguments when given %d' % (app, n - 1), w)
        return
    got = set().union(*live) if live else set()
    miss = [k for k in range(1, n) if k not in got]
    if live and miss:
        c.bad('used', key, '%s accepts %d arguments but never uses argument %d' % (app, n - 1, miss[0]), w)
        return
    c.ok('used', key)
    if not live or not forms:
        return
    form = forms[0]
    for i, l in enumerate(form):
        k = i + 1
        fl = flow.get(k, {})
        rkey = '%s <%s>' % (app, l)
        r = role(l)
        if r == 'out' and 'src' in fl or r == 'in' and 'dst' in fl:
            c.bad('role', rkey, 'the argument <%s> of %s is %s' % (l, app, 'opened for reading' if r == 'out' else 'written to'), fl['src' if r == 'out' else 'dst'])
        elif r == 'out' and 'dst' not in fl:
            c.bad('role', rkey, 'nothing is saved under the argument <%s> of %s' % (l, app), w)
        elif r == 'in' and 'src' not in fl:
            c.bad('role', rkey, 'the argument <%s> of %s is never opened' % (l, app), w)
        elif r:
            c.ok('role', rkey)
        else:
            for p, pw in params.get(k, {}).items():
                sc = {j: score(x, p) for j, x in enumerate(form)}
                best = max(sc.values())
                if best and sc[i] < best and [j for j in sc if sc[j] == best] != [i]:
                    c.bad('role', rkey, 'the argument <%s> of %s is passed as %s' % (l, app, p), pw)
                    break
            else:
                c.ok('role', rkey)


def isint_or_float(t):
    b = bare(t)
    return isint_t(b) or b in ('float', 'double')
