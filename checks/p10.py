"""Every class of the repository that holds memory through a pointer it may have been given (a constructor stores a pointer
parameter in an owning member) is interpreted member function by member function, from each state its constructors and
functions can leave it in, with a model of which allocation each object holds.  Freed memory must be the library's own and not
freed before; at every normal exit each object's ownership marks must agree with what it holds, no allocation is held twice and
none is lost.  An object wrapping lent memory still wraps it, or holds nothing, after every function except an assignment."""
import os
from common import *
from p20 import strip

RULE = __doc__
NULL = C(0)


def ptrfields(u, rec):
    r = []
    for f in rec['fields']:
        t = u.types[f['t']]
        if t.startswith('std::unique_ptr<') and t.endswith('[]>') or t.endswith('*') and not t.startswith('const ') and '(' not in t:
            r.append((f['n'], t))
    return r


class E10(Engine):
    """st.tags['own']: ((loc, pointer value), ...) of owning members; 'freed': frozenset of pointer values"""

    def own(self, s):
        return dict(s.tags.get('own', ()))

    def setown(self, s, l, v):
        d = self.own(s)
        d[l] = v
        s.tags['own'] = tuple(d.items())

    def held(self, s, l):
        return self.own(s).get(l, NULL)

    def free(self, e, s, v):
        v = self.ptr(s, v)
        if v == NULL or isc(v) and v.a[0] == 0:
            return
        kind = self.prov(v)
        if kind == 'ext':
            self.report(e, s, 'lent', 'frees memory that belongs to the caller')
        elif v in s.tags.get('freed', frozenset()):
            self.report(e, s, 'twice', 'frees the same memory twice')
        s.tags['freed'] = s.tags.get('freed', frozenset()) | {v}

    def ptr(self, s, v):
        if v.k == 'cast':
            return self.ptr(s, v.a[-1])
        return v

    def prov(self, v):
        if isc(v) and v.a[0] == 0:
            return 'null'
        return 'heap' if 'heap' in repr(v) else 'ext'

    def report(self, e, s, kind, text):
        self.bad.append((kind, text, '%s:%s' % (units.rel(self.curfile), e.get('l', 0) if isinstance(e, dict) else 0)))

    def construct(self, e, st, loc):
        cls = e.get('cls', '')
        if cls == 'std::unique_ptr':
            r = []
            for s, args in self.args(e, e['a'], st):
                v = NULL
                if args:
                    a = args[0]
                    if a.k == 'objat':
                        v = self.held(s, a.a[0])
                        self.setown(s, a.a[0], NULL)
                    else:
                        v = self.val(s, a)
                self.setown(s, loc, v)
                s.mem[loc] = fresh('obj')
                r.append((s, loc))
            return r
        f = self.u.fns.get(e.get('fn'))
        if cls in (ARR2, ARR3) and e.get('a') and f is not None and self.fn_ok(f):
            t0 = self.u.types[e['pt'][0]] if e.get('pt') else ''
            if bare(t0).endswith('*') and f.get('body'):
                r = []
                for s, args in self.args(e, e['a'], st):
                    s.mem[loc] = mk('obj', cls, ())
                    r += [(o.st, loc) for o in self.run_fn(f, s, args, loc, e) if o.k == 'ret']
                return r
        if cls in (ARR2, ARR3) and e.get('a') and e.get('pt') and bare(self.u.types[e['pt'][0]]) == bare(self.ty(e)):
            mv = self.u.types[e['pt'][0]].rstrip().endswith('&&')
            r = []
            for s, src in self.lv(e['a'][0], st):
                s.mem[loc] = mk('obj', cls, ())
                for l, v in list(self.own(s).items()):
                    if self.under(l, src):
                        self.setown(s, self.rebase(l, src, loc), v if mv else mk('addr', mk('heap', fresh('new'))))
                        if mv:
                            self.setown(s, l, NULL)
                r.append((s, loc))
            return r
        if cls in self.owners:
            d = {k: v for k, v in self.own(st).items() if not self.under(k, loc)}
            st.tags['own'] = tuple(d.items())
            self.objs.add((loc, cls))
            if e.get('copy') and f is not None and f.get('body') and self.fn_ok(f):
                r = []
                for s, args in self.args(e, e['a'], st):
                    s.mem[loc] = mk('obj', cls, ())
                    r += [(o.st, loc) for o in self.run_fn(f, s, args, loc, e) if o.k == 'ret']
                return r
        return Engine.construct(self, e, st, loc)

    def hook(self, e, s, qn, n, o, a, want):
        cls = qn.rsplit('::', 1)[0]
        if cls == 'std::unique_ptr' and o is not None:
            old = self.held(s, o)
            if n == 'reset':
                new = self.val(s, a[0]) if a else NULL
                self.setown(s, o, new)
                if new != old:
                    self.free(e, s, old)
                return [self.ret(e, s, C(0), want)]
            if n == 'release':
                self.setown(s, o, NULL)
                return [self.ret(e, s, old, want)]
            if n == 'get':
                return [self.ret(e, s, old, want)]
            if n == 'swap' and a and a[0].k == 'objat':
                self.setown(s, o, self.held(s, a[0].a[0]))
                self.setown(s, a[0].a[0], old)
                return [self.ret(e, s, C(0), want)]
            if n == 'operator=':
                if a and a[0].k == 'objat':
                    l = a[0].a[0]
                    new = self.held(s, l)
                    if l != o:
                        self.setown(s, l, NULL)
                        self.setown(s, o, new)
                        self.free(e, s, old)
                else:
                    self.setown(s, o, NULL)
                    self.free(e, s, old)
                return [(s, o)] if want == 'lv' else [self.ret(e, s, mk('objat', o), want)]
            if n == 'operator bool':
                return [self.ret(e, s, C(0 if self.prov(old) == 'null' else 1), want)]
        if qn in ('std::make_unique', 'std::make_unique_for_overwrite') and o is None:
            p = mk('addr', mk('heap', fresh('new')))
            self.emit('new', e, s, val=p)
            t = mk('v', 'mu@%d' % id(e))
            self.setown(s, t, p)
            return [(s, t if want == 'lv' else mk('objat', t))]
        if qn == 'std::swap' and len(a) == 2 and all(x.k == 'objat' for x in a):
            l1, l2 = a[0].a[0], a[1].a[0]
            d = self.own(s)
            if l1 in d or l2 in d:
                d[l1], d[l2] = d.get(l2, NULL), d.get(l1, NULL)
                s.tags['own'] = tuple(d.items())
                return [self.ret(e, s, C(0), want)]
            return None
        if qn == 'std::exchange' and len(a) == 2:
            l = a[0].a[0] if a[0].k == 'objat' else None
            if l is not None:
                if l in self.own(s):
                    return None
                v = self.load(s, l)
                self.store(s, l, self.val(s, a[1]))
                return [self.ret(e, s, v, want)]
        if qn.startswith('pybind11::'):
            if n == 'ensure' and a:         # the argument itself, or a converted copy that lives as long as the handle to it
                t = mk('v', 'py@%d' % id(e))
                s.mem[t] = mk('pytemp', self.objval(s, a[0]))
                return [(s, t if want == 'lv' else mk('objat', t))]
            if n in ('data', 'mutable_data', 'unchecked', 'mutable_unchecked') and o is not None:
                return [self.ret(e, s, mk('pydata', s.mem.get(o) or mk('ld', o)), want)]
            if n == 'check_':
                s2 = s.copy()
                s.tags['pysame'] = True
                return [self.ret(e, s, C(1), want), self.ret(e, s2, C(0), want)]
        if n in ('free',) and o is None and a:
            self.free(e, s, self.val(s, a[0]))
            return [self.ret(e, s, C(0), want)]
        if qn.startswith((ARR2 + '::', ARR3 + '::')) and o is not None:
            f = self.u.fns.get(e.get('fn'))
            if f is not None and f.get('body') and len(self.stack) < 6:
                return self.inline(e, s, f, a, o, want)
        if cls in self.owners and o is not None:
            f = self.u.fns.get(e.get('fn'))
            if f is not None and f.get('body') and len(self.stack) < 8:
                return self.inline(e, s, f, a, o, want)
        return None

    def e_new(self, e, st):
        i = e.get('init')
        if e.get('arr') or not isinstance(i, dict) or i.get('k') != 'ctor':
            return Engine.e_new(self, e, st)
        loc = mk('heap', fresh('obj'))
        return [(s, mk('addr', loc)) for s, l in self.construct(i, st, loc)]

    def e_delete(self, e, st):
        r = []
        for s, v in self.ev(e['e'], st):
            self.free(e, s, v)
            r.append((s, C(0)))
        return r


class Pol(Policy):
    maxdepth = 6
    maxstates = 24
    tmax = 60

    def __init__(self, names):
        self.names = names

    def inline(self, eng, f, depth):
        return f.get('cls') in self.names and Policy.inline(self, eng, f, depth)


def classes(u):
    """(record, [(pointer member, type)]) of classes with an owning pointer a constructor fills from a parameter"""
    r = []
    for rec in u.reclist:
        if not rec['qn'].startswith('richdem'):
            continue
        pf = ptrfields(u, rec)
        t = bare(u.types[rec['t']])
        ms = [f for f in u.fns.values() if 'clst' in f and bare(u.types[f['clst']]) == t and f.get('body')]
        if pf and any(f.get('isctor') and any(bare(u.types[p['t']]).endswith('*') for p in f['p']) for f in ms):
            r.append((rec, pf, ms))
    return r


def run(c, tier):
    u = units.load(units.harness('own'))[0]
    own = classes(u)
    if not own:
        raise units.ToolError('no class wrapping memory it is given was found')
    names = {rec['qn'] for rec, _, _ in own}
    for rec, pf, ms in own:
        holder(c, u, rec, pf, ms, names)
    users(c, u, own, names)
    python(c, names)
    c.need('free', 15)
    c.need('state', 15)


def engine(u, names):
    e = E10(u, Pol(names | {ARR2, ARR3}))
    e.owners = names
    e.bad = []
    e.objs = set()
    return e


def isassign(f):
    return f['n'] == 'operator=' or f.get('isctor') or f.get('isdtor') or f['n'] == 'swap'


def bools(u, rec):
    return [f['n'] for f in rec['fields'] if bare(u.types[f['t']]) in ('bool', 'char', 'int', 'unsigned char') or u.types[f['t']].startswith('enum')]


def kindof(e, s, obj, pf):
    ks = {e.prov(pval(e, s, obj, n, t)) for n, t in pf}
    return 'ext' if 'ext' in ks else 'heap' if 'heap' in ks else 'null'


def pval(e, s, obj, n, t):
    l = mk('fld', obj, n)
    if t.startswith('std::unique_ptr'):
        return e.held(s, l)
    return e.ptr(s, s.mem.get(l, NULL))


def flags(e, s, obj, bs):
    r = []
    for b in bs:
        v = s.mem.get(mk('fld', obj, b))
        r.append(v.a[0] if v is not None and isc(v) else None)
    return tuple(r)


def install(e, s, obj, kind, fl, bs, pf, i):
    p = {'null': NULL, 'heap': mk('addr', mk('heap', mk('sym', 'entry%d' % i))), 'ext': mk('ld', mk('v', 'caller%d' % i))}[kind]
    for n, t in pf:
        l = mk('fld', obj, n)
        if t.startswith('std::unique_ptr'):
            e.setown(s, l, p)
        else:
            s.mem[l] = p
    for b, v in zip(bs, fl):
        if v is not None:
            s.mem[mk('fld', obj, b)] = C(v)
    return p


def short_t(u, rec):
    return short(bare(u.types[rec['t']]))


def holder(c, u, rec, pf, ms, names):
    bs = bools(u, rec)
    me = short_t(u, rec)
    this = mk('v', 'this')
    for n, t in pf:
        if t.startswith('std::unique_ptr') and ',' in t:
            raise units.ToolError('%s::%s has a deleter of its own' % (me, n))
    sigs = {'ext': set(), 'heap': set(), 'null': set()}
    # the states constructors leave: wrapped, owned, empty
    for f in ms:
        if f.get('isctor') and not f.get('copyctor') and not any(bare(u.types[p['t']]).startswith(rec['qn']) for p in f['p']):
            e = engine(u, names)
            for o in e.analyse(f, None):
                if o.k == 'ret':
                    sigs[kindof(e, o.st, this, pf)].add(flags(e, o.st, this, bs))
    if not sigs['ext']:
        raise units.ToolError('%s: no constructor wraps memory' % me)
    if not sigs['heap']:
        sigs['heap'] = set(sigs['null'])
    mark = sigs['ext'] & (sigs['heap'] | sigs['null'])
    if mark:
        c.bad('state', me + ' marks', '%s: memory lent by a caller cannot be told from memory of its own' % me, units.rel(u.files[rec['file']]))
        return
    c.ok('state', me + ' marks')
    sigs['null'] |= sigs['heap']
    done = set()
    todo = [(k, x) for k in sigs for x in sigs[k]]
    entry = set(todo)
    ok, bad, sizers = set(), {}, {}
    while todo:
        new = []
        for f in ms:
            c.fn(f['qn'])
            label = '%s::%s(%s)' % (me, f['n'], ', '.join(short(u.types[p['t']]) for p in f['p']))
            others = [i for i, p in enumerate(f['p']) if bare(u.types[p['t']]).startswith(rec['qn'] + '<')]
            combos = [(a, b) for a in ([None] if f.get('isctor') else sorted(entry, key=lambda x: (x[0] == 'ext', str(x)))) for b in (sorted(entry, key=str) if others else [None])]
            for a, b in combos:
                if (f['fn'], a, b) in done:
                    continue
                done.add((f['fn'], a, b))
                e = engine(u, names)
                e.objs = {(this, rec['qn'])}
                start = {}

                def setup(eng, s, f, args):
                    if a is not None:
                        start[this] = install(eng, s, this, a[0], a[1], bs, pf, 0)
                    for i in others:
                        obj = args[i].a[0]
                        eng.objs.add((obj, rec['qn']))
                        start[obj] = install(eng, s, obj, b[0], b[1], bs, pf, 1)
                    sz = [x['n'] for x in rec['fields'] if x['n'] not in bs and isint_t(bare(u.types[x['t']]))]
                    for o in start:
                        for x in sz:
                            s.mem[mk('fld', o, x)] = mk('sym', '%s of %s' % (x, o.a[0]))
                news = []
                outs = go(e, f, setup, news)
                st0 = 'from %s' % ' and '.join(str(x[0]) for x in (a, b) if x)
                for kind, text, wh in e.bad:
                    bad.setdefault(('free', label + ' ' + kind, '%s %s (%s)' % (label, text, describe(a, b))), wh)
                ok.add(('free', label))
                for o in outs:
                    if o.k != 'ret':
                        continue
                    s = o.st
                    seen = {}
                    if a is not None and a[0] == 'heap' and not isassign(f):
                        for x in rec['fields']:
                            v = s.mem.get(mk('fld', this, x['n']))
                            if x['n'] not in bs and v is not None and v.k == 'ld' and v.a[0].k == 'v' and v.a[0].a[0] in ['%s@%d' % (p['n'], p['d']) for p in f['p']]:
                                sizers.setdefault(f['fn'], set()).add((x['n'], v))
                    for obj, cls in sorted(e.objs, key=repr):
                        if f.get('isdtor') and obj == this:
                            # what an owning pointer still holds when the object dies is freed with it
                            for n, t in pf:
                                if t.startswith('std::unique_ptr'):
                                    k0 = len(e.bad)
                                    e.curfile = u.file(f)
                                    e.free({'l': f['line']}, s, pval(e, s, obj, n, t))
                                    for kind, text, wh in e.bad[k0:]:
                                        bad.setdefault(('free', label + ' ' + kind, '%s %s (%s)' % (label, text, describe(a, b))), wh)
                            continue
                        k = kindof(e, s, obj, pf)
                        fl = flags(e, s, obj, bs)
                        if all(x is None for x in fl) and k == 'null' and obj not in start and obj != this:
                            continue
                        for n, t in pf:
                            v = pval(e, s, obj, n, t)
                            if v != NULL and (v, n) in seen and e.prov(v) == 'heap':
                                bad.setdefault(('state', label + ' shared', '%s leaves two objects owning the same memory (%s)' % (label, describe(a, b))), where(u, f))
                            seen[v, n] = obj
                            if v in s.tags.get('freed', frozenset()):
                                bad.setdefault(('state', label + ' dangling', '%s leaves an object holding memory it freed (%s)' % (label, describe(a, b))), where(u, f))
                        if k == 'ext' and fl not in sigs['ext'] or k == 'heap' and fl not in sigs['heap']:
                            bad.setdefault(('state', label + ' marks', '%s leaves an object that takes %s (%s)' % (label, 'lent memory for its own' if k == 'ext' else 'its own memory for lent', describe(a, b))), where(u, f))
                        elif k == 'null' and (k, fl) not in entry and None not in fl and obj in start:
                            entry.add((k, fl))
                            new.append((k, fl))
                    # nothing allocated is lost
                    live = {v for v, _ in seen}
                    freed = s.tags.get('freed', frozenset())
                    for v in [start[o] for o in start] + list(s.tags.get('new', ())):
                        if e.prov(v) == 'heap' and v not in live and v not in freed and not (o.v is not None and v == o.v):
                            bad.setdefault(('free', label + ' lost', '%s loses memory without freeing it (%s)' % (label, describe(a, b))), where(u, f))
                    if a is not None and a[0] == 'ext' and not isassign(f):
                        if start.get(this) not in live and kindof(e, s, this, pf) != 'null':
                            bad.setdefault(('refuse', label, '%s silently gives up the memory lent by the caller for other memory' % label), where(u, f))
                        elif any(not same(s, s.mem.get(mk('fld', this, x), mk('ld', mk('fld', this, x))), v) for x, v in sizers.get(f['fn'], ())):
                            bad.setdefault(('refuse', label, '%s returns without an error although lent memory was not given the size asked for' % label), where(u, f))
                        elif changed(u, rec, s, this, bs):
                            bad.setdefault(('refuse', label, '%s changes the size of memory lent by the caller' % label), where(u, f))
                        else:
                            ok.add(('refuse', label))
                ok.add(('state', label))
        todo = new
    for g, k, t in sorted(bad):
        c.bad(g, k, t, bad[g, k, t])
    bads = {(g, k.rsplit(' ', 1)[0]) for g, k, _ in bad} | {(g, k) for g, k, _ in bad}
    for g, k in sorted(ok):
        if (g, k) not in bads:
            c.ok(g, k)


def same(s, a, b):
    return a == b or s.facts.le(a, b) and s.facts.le(b, a)


def changed(u, rec, s, this, bs):
    for x in rec['fields']:
        if x['n'] not in bs and isint_t(bare(u.types[x['t']])):
            v = s.mem.get(mk('fld', this, x['n']))
            v0 = mk('sym', '%s of this' % x['n'])
            if v is not None and v != v0 and not (s.facts.le(v, v0) and s.facts.le(v0, v)):
                return True
    return False


def describe(a, b):
    n = {'ext': 'wrapping lent memory', 'heap': 'owning memory', 'null': 'empty'}
    return ', '.join(x for x in (a and 'the object ' + n[a[0]], b and 'the other ' + n[b[0]]) if x) or 'a new object'


def go(e, f, setup, news):
    def on(eng, ev, st):
        if ev.kind == 'new' and ev.val is not None:
            v = ev.val if ev.val.k == 'addr' else mk('addr', mk('heap', ev.val))
            st.tags['new'] = st.tags.get('new', ()) + (v,)
    e.listeners = [on]
    try:
        return e.analyse(f, setup)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])


def users(c, u, own, names):
    """classes with a member of an owning class: after a function that is no assignment a wrapped raster still wraps the memory, or holds none"""
    byname = {bare(u.types[r['t']]): (r, pf) for r, pf, _ in own}
    for rec in u.reclist:
        hs = [f for f in rec['fields'] if bare(u.types[f['t']]) in byname]
        if not hs or not rec['qn'].startswith('richdem'):
            continue
        t = bare(u.types[rec['t']])
        ms = [f for f in u.fns.values() if 'clst' in f and bare(u.types[f['clst']]) == t and f.get('body') and not isassign(f) and not f.get('cm')]
        for h in hs:
            r2, pf = byname[bare(u.types[h['t']])]
            bs = bools(u, r2)
            me = short(t)
            wrap = wrapped(u, r2, pf, bs, names)
            for f in ms:
                if not touches(u, f, names, set()):
                    continue
                label = '%s::%s(%s)' % (me, f['n'], ', '.join(short(u.types[p['t']]) for p in f['p']))
                c.fn(f['qn'])
                e = engine(u, names)
                obj = mk('fld', mk('v', 'this'), h['n'])
                st = {}

                def setup(eng, s, f, args):
                    st['p'] = install(eng, s, obj, 'ext', wrap, bs, pf, 0)
                outs = go(e, f, setup, [])
                w = where(u, f)
                bad = None
                for kind, text, wh in e.bad:
                    if kind == 'lent':
                        bad = ('%s of a raster wrapping lent memory %s' % (label, text), wh)
                for o in outs:
                    if o.k == 'ret':
                        k = kindof(e, o.st, obj, pf)
                        if k == 'heap':
                            bad = bad or ('%s silently moves a raster wrapping lent memory to other memory' % label, w)
                        elif k == 'ext' and flags(e, o.st, obj, bs) != wrap:
                            bad = bad or ('%s leaves a raster that takes lent memory for its own' % label, w)
                if bad:
                    c.bad('refuse', label, *bad)
                else:
                    c.ok('refuse', label)


def wrapped(u, rec, pf, bs, names):
    t = bare(u.types[rec['t']])
    for f in u.fns.values():
        if 'clst' in f and bare(u.types[f['clst']]) == t and f.get('body') and f.get('isctor'):
            e = engine(u, names)
            for o in e.analyse(f, None):
                if o.k == 'ret' and kindof(e, o.st, mk('v', 'this'), pf) == 'ext' and any(bare(u.types[p['t']]).endswith('*') for p in f['p']):
                    return flags(e, o.st, mk('v', 'this'), bs)
    raise units.ToolError('no wrapping constructor of ' + t)


def touches(u, f, names, seen, d=0):
    """does f (or what it calls on its own object) call a non-const function of an owning class other than element access?"""
    if f['fn'] in seen or d > 4:
        return False
    seen.add(f['fn'])
    for y in calls([f.get('body')]):
        g = u.fns.get(y['fn'])
        if g is None:
            continue
        if g.get('cls') in names and not g.get('cm') and g['n'] not in ('operator[]', 'data'):
            return True
        if g.get('cls') == f.get('cls') and touches(u, g, names, seen, d + 1):
            return True
    return False


def python(c, names):
    """a raster handed to Python wraps no memory of a conversion that is gone when the constructor returns"""
    u, = units.load([os.path.join(units.REPO, 'wrappers/pyrichdem/src/pywrapper.cpp')], strict=False)
    res = {}
    for f in u.fns.values():
        if not f.get('lam') or not f.get('body') or not u.file(f).startswith(units.REPO):
            continue
        if not nodes(f['body'], lambda y: y['k'] == 'ctor' and y.get('cls') in (ARR2, ARR3)) or not nodes(f['body'], lambda y: y['k'] == 'call' and str(y.get('qn', '')).startswith('pybind11::')):
            continue
        e = engine(u, names)
        key = 'constructor from a Python array at %s' % where(u, f)
        bad = False
        for o in go(e, f, None, []):
            if o.k != 'ret' or o.st.tags.get('pysame'):
                continue
            for l, v in e.own(o.st).items():
                if 'pytemp' in repr(v) and 'heap' in repr(l):
                    bad = True
        for kind, text, wh in e.bad:
            bad = bad or kind == 'lent'
        t = bare(u.types[f['ret']]) if 'ret' in f else ''
        res.setdefault(where(u, f), []).append(bad)
        c.fn('Python constructor ' + t)
    for w, bs in sorted(res.items()):
        k = os.path.basename(w).rsplit(':', 1)[0]
        if any(bs):
            c.bad('python', k, 'a raster made from a Python array wraps the memory of a conversion that is gone when the constructor returns', w)
        else:
            c.ok('python', k + ' ' + w)
