"""All uses of randomness in the sources are enumerated through resolved callees.  A source of entropy (random_device, rand,
clocks, process identifiers, ...) may only be used by seed_rand, on paths that prove the caller's seed to be zero.  Each
generator in use is the calling thread's own, or one built from a parameter; what a generator is seeded with is a term of the
user's seed and the thread number only, which changes with the seed and differs between any two of 32 threads; every normal path
of a seeding function seeds, in every thread of a parallel region.  No distribution that keeps numbers between draws and no
other mutable static storage survives a call.  Loops that draw numbers are shared out between threads in a fixed way.  The
seed given to a public entry (C++ or Python) is the one that reaches the generator."""
import os
from common import *
from p25 import evaluate, syms
import pyabs
from pyabs import Module, Interp, Const, Unk, Obj, Fn, Eng

RULE = __doc__
ENG = ('mersenne_twister_engine', 'linear_congruential_engine', 'subtract_with_carry_engine', 'discard_block_engine', 'shuffle_order_engine',
       'independent_bits_engine')
KEEPS = ('normal_distribution', 'lognormal_distribution', 'gamma_distribution', 'chi_squared_distribution', 'student_t_distribution',
         'fisher_f_distribution', 'negative_binomial_distribution', 'poisson_distribution', 'binomial_distribution')
ENTROPY = {'std::random_device::operator()', 'rand', 'std::rand', 'srand', 'std::srand', 'rand_r', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48',
           'erand48', 'getentropy', 'getrandom', 'arc4random', 'arc4random_uniform', 'std::random_shuffle'}
TIMES = {'time', 'std::time', 'clock', 'std::clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getppid', 'gettid', 'pthread_self',
         'std::this_thread::get_id', '__rdtsc', 'getenv', 'std::getenv'}
TID = mk('tid')
PUBLIC = ('seed_rand',)


def isentropy(qn):
    return qn in ENTROPY


def istime(qn):
    return qn in TIMES or qn.startswith('std::chrono::') and qn.endswith('::now')


def hasengine(t):
    return any('std::' + e in t for e in ENG)


class E21(Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.uses = []      # (kind, qn, loc, args, state facts, node, file, omp)

    def use(self, kind, qn, o, a, s, e):
        self.uses.append((kind, qn, o, tuple(a), s.copy(), e, self.curfile))

    def construct(self, e, st, loc):
        r = Engine.construct(self, e, st, loc)
        cls = e.get('cls', '')
        if cls == 'std::random_device':
            self.use('entropy', cls, loc, (), st, e)
        elif cls.startswith('std::') and cls.split('::')[1] in ENG and not e.get('copy'):
            for s, l in r:
                if e.get('a'):
                    v = s.mem.get(loc)
                    a = v.a[1:] if v is not None and v.k == 'mkobj' else (mk('ind', fresh('seed')),)
                    self.use('seed', cls, loc, a, s, e)
                    s.tags[('own', loc)] = True
                    s.tags['seeded'] = True
                s.tags[('made', loc)] = True
        return r

    def hook(self, e, s, qn, n, o, a, want):
        if n == 'omp_get_thread_num':
            return [self.ret(e, s, TID, want)]
        if n == 'omp_get_num_threads' or n == 'omp_get_max_threads':
            return [self.ret(e, s, mk('nthreads'), want)]
        if isentropy(qn):
            self.use('entropy', qn, o, a, s, e)
        elif o is not None and n == 'seed' and hasengine(qn.split('::seed')[0]):
            vals = []
            for x in a:
                if x.k == 'objat':
                    v = s.mem.get(x.a[0])
                    vals += list(v.a[1:]) if v is not None and v.k == 'mkobj' else [fresh('seedobj')]
                else:
                    vals.append(self.val(s, x))
            self.use('seed', qn, o, vals, s, e)
            if not s.tags.get(('made', o)):
                self.use('gen', qn, o, (), s, e)
            s.tags['seeded'] = True
            s.tags[('own', o)] = True
        else:
            for i, x in enumerate(a):
                if x.k == 'objat' and i < len(e.get('a', [])) and self.isengine(self.ty(e['a'][i])):
                    self.use('gen', qn, x.a[0], tuple(a), s, e)
            if o is not None and n == 'operator()' and hasengine(qn):
                self.use('gen', qn, o, (), s, e)
        return Engine.hook(self, e, s, qn, n, o, a, want)

    def isengine(self, t):
        return bare(t).startswith('std::') and bare(t)[5:].split('<')[0] in ENG or bare(t).split('::')[-1] in ('our_random_engine', 'default_random_engine', 'mt19937', 'mt19937_64', 'minstd_rand')


def touches(u, f):
    """does the function itself use generators, distributions or entropy?"""
    def hit(y):
        q = y.get('qn') or ''
        if y['k'] == 'ctor' and (y.get('cls', '').startswith('std::') and y['cls'].split('::')[1].split('<')[0] in ENG + ('random_device',)):
            return True
        if y['k'] in ('call', 'ctor') and q:
            if isentropy(q) or any('std::' + e in q for e in ENG):
                return True
            return any(hasengine(u.types[p]) for p in y.get('pt', []) if isinstance(p, int))
        return False
    return bool(nodes([f.get('body'), f.get('inits')], hit)) or hasengine(u.types[f['rt']] if isinstance(f.get('rt'), int) else '')


def mine(u, f):
    return inrepo(u, f) and not any(x in u.file(f) for x in ('doctest', '/catch', 'CLI11', 'cli_options', 'radix_heap', '/tests/'))


def param_of(t, f):
    """parameters of f that term t depends on"""
    names = {p['n'] for p in f['p']}
    r = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.k == 'v' and isinstance(x.a[0], str) and x.a[0].split('@')[0] in names:
            r.add(x.a[0].split('@')[0])
        st.extend(x.a)
    return r


def atoms(t):
    """leaves a seed may not depend on: anything but parameters, the thread number and constants"""
    r = []
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T):
            continue
        if x == TID or isc(x) or x.k == 'v' or x.k == 'ld' and x.a[0].k == 'v':
            continue
        if x.k in ('lin', 'mul', 'ucast', 'cast', 'trunc', 'mod', 'idiv', 'bop', 'ilist', 'xor', 'str', 'uneg', 'not', 'ite', 'objat', 'fcast'):
            st.extend(x.a)
            continue
        r.append(x)
    return r


M64 = (1 << 64) - 1


def ev(eng, t, env):
    if t.k == 'ilist':
        vs = [ev(eng, x, env) for x in t.a]
        return None if None in vs else tuple(vs)
    if t.k == 'bop':
        op, a, b = t.a
        a, b = ev(eng, a, env), ev(eng, b, env)
        if a is None or b is None:
            return None
        a, b = int(a) & M64, int(b) & M64
        return {'>>': lambda: a >> (b & 63), '<<': lambda: (a << (b & 63)) & M64, '^': lambda: a ^ b, '|': lambda: a | b, '&': lambda: a & b}.get(op, lambda: None)()
    if t in env:
        return env[t]
    if isc(t):
        return int(t.a[0])
    if t.k == 'lin':
        r = t.a[0]
        for a, k in t.a[1]:
            v = ev(eng, a, env)
            if v is None:
                return None
            r += k * v
        return int(r) & M64
    if t.k == 'mul':
        r = 1
        for a in t.a:
            v = ev(eng, a, env)
            if v is None:
                return None
            r = r * v & M64
        return r
    if t.k in ('ucast', 'cast', 'trunc', 'objat'):
        return ev(eng, t.a[-1] if t.k != 'trunc' else t.a[0], env)
    if t.k == 'mod' and len(t.a) == 2:
        a, b = ev(eng, t.a[0], env), ev(eng, t.a[1], env)
        return None if a is None or not b else a % b
    return evaluate(eng, t, env)


def symbols(t, r):
    if isinstance(t, tuple):
        for x in t:
            symbols(x, r)
    elif isinstance(t, T):
        if t == TID or t.k == 'ld' and t.a[0].k == 'v':
            r.add(t)
        elif t.k == 'v':
            r.add(t)
        else:
            for x in t.a:
                symbols(x, r)
    return r


def seeds(c, u, f, eng, x, key, w):
    kind, qn, loc, vals, s, e, _ = x
    zero = zeroed(eng, s, f)
    bad = [a for v in vals for a in atoms(v)]
    if bad:
        if zero:
            return c.ok('entropy on request', key)
        return c.bad('seed', 'seed:' + key, '%s: a generator is seeded with something other than the seed and the thread number' % short(f['qn']), w)
    ps = set()
    for v in vals:
        ps |= param_of(v, f)
    if not ps:
        return c.bad('seed', 'seed:' + key, '%s: a generator is seeded without the caller\'s seed' % short(f['qn']), w)
    sy = set()
    for v in vals:
        symbols(v, sy)
    par = [y for y in sy if y != TID]
    shared = 'tid' in repr(loc)     # one generator per thread
    by = {}
    for sd in (1, 2, 3, 42, 1000003, 2**31 - 1):
        for t in range(32 if shared or TID in sy else 1):
            env = {TID: t}
            for y in par:
                env[y] = sd
            r = tuple(ev(eng, v, env) for v in vals)
            if any(v is None for v in r):
                raise units.ToolError('cannot evaluate the seed %s of %s' % (r, f['qn']))
            r = tuple(tuple(int(q) & 0xffffffff for q in v) if isinstance(v, tuple) else int(v) & 0xffffffff for v in r)
            by[(sd, t)] = r
    for t in {k[1] for k in by}:
        if len({by[k] for k in by if k[1] == t}) < 6:
            return c.bad('seed', 'seed:' + key, '%s: the generator of thread %d is seeded alike for different seeds' % (short(f['qn']), t), w)
    if shared:
        for sd in {k[0] for k in by}:
            if len({by[k] for k in by if k[0] == sd}) < 32:
                return c.bad('seed', 'stream:' + key, '%s: two threads are seeded alike (seed %d)' % (short(f['qn']), sd), w)
    c.ok('seed', key)


def zeroed(eng, s, f):
    """is one of the integer parameters known to be zero here?"""
    if short(f['qn']).split('::')[-1] not in PUBLIC:
        return False
    for p in f['p']:
        if s.facts.eq(mk('ld', mk('v', '%s@%d' % (p['n'], p['d']))), C(0)):
            return True
    return False


def generator(loc, s):
    """whose generator: 'own' (the calling thread's, or one seeded here) or a description"""
    if s.tags.get(('own', loc)) and 'gl(' not in repr(loc):
        return 'own'
    if 'static' in repr(loc) or 'gl(' in repr(loc):
        if loc.k == 'el' or len(loc.a) > 1:
            idx = loc.a[-1]
            while isinstance(idx, T) and idx.k in ('ucast', 'cast'):
                idx = idx.a[-1]
            if isinstance(idx, tuple) and len(idx) == 1:
                idx = idx[0]
            if idx == TID:
                return 'own'
        if 'thread' in repr(loc):
            return 'own'
        return 'a generator that is not the calling thread\'s'
    if not s.tags.get(('made', loc)) and loc.k == 'v' and '@' in str(loc.a[0]):
        return 'own'        # a parameter: the caller's
    return 'a generator that was not seeded from the caller\'s seed'


def randfns(us):
    """ids of functions that draw numbers, transitively"""
    draw = set()
    callers = {}
    for u in us:
        for f in u.fns.values():
            if not mine(u, f):
                continue
            for cl in calls([f.get('body'), f.get('inits')]):
                callers.setdefault(cl.get('qn'), set()).add((f['qn'], f['fn']))
                if cl['k'] == 'call' and (cl.get('qn') or '').startswith('std::') and any(hasengine(u.types[p]) for p in cl.get('pt', [])):
                    draw.add(f['qn'])
    work = list(draw)
    while work:
        q = work.pop()
        for g, _ in callers.get(q, ()):
            if g not in draw:
                draw.add(g)
                work.append(g)
    return draw


def run(c, tier):
    us = units.load(units.harness('flow', 'misc') + [p for p in units.srcs() if 'gdal' not in os.path.basename(p)] + units.apps(), strict=False)
    c.need('generator', 5)
    c.need('seed', 2)
    c.need('shared loop', 1)
    done = set()
    for u in us:
        fs = []
        for f in u.fns.values():
            k = (f['qn'], f.get('ta'), u.file(f), f['line'])
            if not mine(u, f) or k in done:
                continue
            done.add(k)
            if touches(u, f):
                fs.append(f)
            else:
                c.ok('function without randomness')
        # callers first: what a helper does is judged in the callers that reach it
        inner = {cl['fn'] for f in fs for cl in calls([f.get('body'), f.get('inits')]) if cl['fn'] != f['fn']}
        covered = set()
        for f in sorted(fs, key=lambda f: f['fn'] in inner):
            if f['fn'] in inner and f['fn'] in covered:
                continue
            name = short(f['qn'])
            c.fn(f['qn'])
            eng = E21(u, Policy())
            eng.listeners.append(lambda _, ev, __: covered.add(ev.node.get('fn')) if ev.kind == 'enter' and ev.node else None)
            try:
                outs = eng.analyse(f)
            except Budget:
                raise units.ToolError('analysis budget exceeded in ' + f['qn'])
            for x in eng.uses:
                kind, qn, loc, a, s, e, fl = x
                w = '%s:%s' % (units.rel(fl), e.get('l', 0))
                key = name + ' ' + short(qn)
                if kind == 'entropy':
                    if zeroed(eng, s, f):
                        c.ok('entropy on request', key)
                    else:
                        c.bad('entropy', 'entropy:' + key, '%s consults %s though the user did not ask for it' % (name, short(qn)), w)
                elif kind == 'seed':
                    seeds(c, u, f, eng, x, key, w)
                elif kind == 'gen':
                    g = generator(loc, s)
                    if g == 'own':
                        c.ok('generator', key)
                    else:
                        c.bad('generator', 'generator:' + key, '%s uses %s' % (name, g), w)
            if any(x[0] == 'seed' and 'tid' in repr(x[2]) for x in eng.uses):
                for o in outs:
                    if o.k == 'ret' and not o.st.tags.get('seeded'):
                        c.bad('seeded', 'seeded:' + name, '%s can return without having seeded the generators' % name, where(u, f))
                    elif o.k == 'ret':
                        c.ok('seeded', name)
                region(c, u, f)
    statics(c, us)
    loops(c, us)
    entry(c, us)
    python(c)


def region(c, u, f):
    """seeding per-thread generators happens in every thread of a parallel region"""
    name = short(f['qn'])
    found = []

    def go(x, omp):
        if isinstance(x, list):
            for y in x:
                go(y, omp)
            return
        if not isinstance(x, dict):
            return
        if x.get('k') == 'omp':
            omp = omp + (x['dir'],) + tuple('%s single' % cl['n'] for cl in x.get('cl', []) if cl['n'] in ('if', 'num_threads'))
        if x.get('k') == 'call' and (x.get('qn') or '').endswith('::seed'):
            found.append((omp, x.get('l')))
        elif x.get('k') == 'call' and seedshelper(u, x):
            go(u.fns[x['fn']]['body'], omp)
        for y in x.values():
            if isinstance(y, (dict, list)):
                go(y, omp)
    go(f['body'], ())
    for omp, l in found:
        par = any('parallel' in d for d in omp)
        part = [d for d in omp if any(w in d for w in ('for', 'single', 'master', 'masked', 'section', 'task'))]
        if par and not part:
            c.ok('every thread', name)
        elif not par:
            if any('parallel' in y['dir'] for y in nodes(f['body'], lambda y: y['k'] == 'omp')) or True:
                c.bad('every thread', 'threads:' + name, '%s seeds the generator of one thread only' % name, where(u, f, l))
        else:
            c.bad('every thread', 'threads:' + name, '%s seeds within a construct (%s) that not every thread executes' % (name, part[0].replace(' single', ' clause')), where(u, f, l))


def seedshelper(u, x, depth=0):
    g = u.fns.get(x.get('fn'))
    if g is None or not mine(u, g) or depth > 3 or not g.get('body'):
        return False
    return any((y.get('qn') or '').endswith('::seed') or seedshelper(u, y, depth + 1) for y in calls(g['body']))


def reachable(us, start):
    byq = {}
    for u in us:
        for f in u.fns.values():
            if mine(u, f):
                byq.setdefault(f['qn'], []).append((u, f))
    seen, work = set(), [q for q in byq if start(q)]
    seen |= set(work)
    while work:
        q = work.pop()
        for u, f in byq[q]:
            for cl in calls([f.get('body'), f.get('inits')]):
                g = cl.get('qn')
                if g in byq and g not in seen:
                    seen.add(g)
                    work.append(g)
    return {q: byq[q] for q in seen}


GEN = ('generate_perlin_terrain', 'seed_rand', 'uniform_rand_int', 'uniform_rand_real', 'normal_rand', 'uniform_bits', 'FM_FairfieldLeymarie', 'FM_Rho8', 'FM_Rho4', 'rand_engine')


def statics(c, us):
    """storage that outlives a call in functions that generate or draw"""
    own = {f['qn'] for u in us for f in u.fns.values() if mine(u, f) and touches(u, f)}
    fns = reachable(us, lambda q: q.split('::')[-1] in GEN or q in own)
    for q, l in sorted(fns.items()):
        for u, f in l:
            if any(x in u.file(f) for x in ('timer.hpp', 'ProgressBar', 'Array2D', 'Array3D', 'ManagedVector', 'logger', 'version')):
                continue
            for d in nodes(f['body'], lambda y: y['k'] == 'decl'):
                for v in d['v']:
                    if not v.get('static'):
                        continue
                    t = u.types[v['t']]
                    key = '%s %s' % (short(q), v['n'])
                    if hasengine(t) or t.startswith('const ') or v.get('cx'):
                        c.ok('static storage', key)
                    elif any(k in t for k in KEEPS):
                        c.bad('static storage', 'static:' + key, '%s keeps the distribution %s, which holds numbers drawn earlier, between calls' % (short(q), v['n']), where(u, f, v.get('l')))
                    elif '_distribution' in t:
                        c.ok('static storage', key)
                    else:
                        c.bad('static storage', 'static:' + key, '%s keeps %s between calls: its results depend on earlier calls' % (short(q), v['n']), where(u, f, v.get('l')))
            glob = nodes(f['body'], lambda y: y['k'] == 'ref' and y.get('dk') in ('global', 'tls'))
            for g in glob:
                t = u.types[g['t']] if 't' in g else ''
                key = '%s %s' % (short(q), g.get('n'))
                if hasengine(t) or t.startswith('const ') or t.startswith('std::ostream') or 'const' in t.split('[')[0]:
                    c.ok('static storage', key)
                elif any(k in t for k in KEEPS):
                    c.bad('static storage', 'static:' + key, '%s draws from %s, which holds numbers drawn earlier' % (short(q), g['n']), where(u, f, g.get('l')))
                elif g.get('n') not in ('cout', 'cerr', 'clog') and 'richdem' in (g.get('qn') or ''):
                    if written(us, g.get('qn')):
                        c.bad('static storage', 'static:' + key, '%s depends on the variable %s, which other calls change' % (short(q), g['n']), where(u, f, g.get('l')))
    for u in us:
        for r in u.records.values():
            if r['qn'].startswith('std::'):
                continue
    # clocks and the like behind the entry points, other than in timers
    for q, l in sorted(fns.items()):
        for u, f in l:
            if short(q).startswith(('Timer::', 'ProgressBar::')):
                continue
            for cl in calls(f['body']):
                if (isentropy(cl.get('qn') or '') or istime(cl.get('qn') or '')) and short(q).split('::')[-1] not in PUBLIC:
                    c.bad('entropy', 'entropy:%s %s' % (short(q), short(cl['qn'])), '%s consults %s' % (short(q), short(cl['qn'])), where(u, f, cl.get('l')))


def written(us, qn):
    for u in us:
        for f in u.fns.values():
            if mine(u, f) and nodes(f['body'], lambda y: (y['k'] == 'asg' or y['k'] == 'un' and y.get('op') in ('++', '--')) and (y.get('a') or y.get('e') or {}).get('qn') == qn):
                return True
    return False


def loops(c, us):
    draws = randfns(us)
    for u in us:
        for f in u.fns.values():
            if not mine(u, f):
                continue
            for o in nodes(f['body'], lambda y: y['k'] == 'omp'):
                if not any(cl.get('qn') in draws for cl in calls(o.get('b'))):
                    continue
                key = '%s%s' % (short(f['qn']), '<%s>' % f['ta'] if f.get('ta') else '')
                k = [cl.get('v') for cl in o.get('cl', []) if cl['n'] == 'schedule']
                if any(w in o['dir'] for w in ('task', 'section', 'single')) or any(x != 'static' for x in k):
                    c.bad('shared loop', 'loop:' + key, '%s: which thread draws for which cell depends on timing (%s)' % (short(f['qn']), ' '.join([o['dir']] + ['schedule ' + str(x) for x in k])), where(u, f, o.get('l')))
                else:
                    c.ok('shared loop', key)


def entry(c, us):
    """functions that take a seed pass it on to what consumes it"""
    ctors = {}
    for u in us:
        for f in u.fns.values():
            if not mine(u, f) or touches(u, f):
                continue
            sp = [p for p in f['p'] if 'seed' in p['n'].lower() and not u.types[p['t']].rstrip().endswith('&') and 'vector' not in u.types[p['t']]]
            if not sp or short(f['qn']) in ctors:
                continue
            ctors[short(f['qn'])] = 1
            sinks = []

            class En(E21):
                def construct(self, e, st, loc):
                    r = Engine.construct(self, e, st, loc)
                    for s, l in r:
                        v = s.mem.get(loc)
                        if v is not None and v.k == 'mkobj' and not e.get('cls', '').startswith('std::'):
                            sinks.append((e.get('cls'), v.a[1:], e))
                            if any(tuple_has(self, x, sp) for x in v.a[1:]):
                                s.tags['gave'] = True
                    return r

                def hook(self, e, s, qn, n, o, a, want):
                    if any(x.k in ('ld', 'ucast', 'cast') and tuple_has(self, x, sp) for x in a):
                        s.tags['gave'] = True
                    return E21.hook(self, e, s, qn, n, o, a, want)

            eng = En(u, Policy())
            outs = eng.analyse(f)
            rets = [o for o in outs if o.k == 'ret']
            if rets and not all(o.st.tags.get('gave') for o in rets):
                c.bad('entry', 'entry:' + short(f['qn']), '%s does not pass on the seed it was given' % short(f['qn']), where(u, f))
            else:
                c.ok('entry', short(f['qn']))
    c.need('entry', 1)


def tuple_has(eng, t, ps):
    """t is the parameter itself, or an injective (linear) term of it"""
    while t.k in ('ucast', 'cast'):
        t = t.a[-1]
    k, l = lin(t)
    for p in ps:
        v = mk('ld', mk('v', '%s@%d' % (p['n'], p['d'])))
        if l.get(v) in (1, -1):
            return not [x for x in l if x != v]
    return False


def python(c):
    path = os.path.join(units.REPO, 'wrappers/pyrichdem/richdem/__init__.py')
    m = Module(path)
    for name, nd in m.fns.items():
        ps = [a.arg for a in nd.args.args]
        if 'seed' not in ps:
            continue
        I = Interp({'richdem': m})
        st = pyabs.St()
        st.env = {'__mod': m, '__cls': None}
        kw = {p: Unk('arg:' + p) for p in ps}
        outs = I.call_fn(Fn(nd, m), [], kw, st)
        c.fn('richdem.' + name)
        for k, v, s in outs:
            if k != 'ret':
                continue
            cs = [x for x in s.ev if x[0] == 'engine' and x[1].split('.')[-1] == name] if hasattr(s, 'ev') else []
            got = [a for x in cs for a in x[2] if isinstance(a, Unk) and 'arg:seed' in repr(a.__dict__)]
            if cs and got:
                c.ok('python entry', name)
            else:
                c.bad('python entry', 'python:' + name, 'the seed given to richdem.%s does not reach the generator' % name, 'wrappers/pyrichdem/richdem/__init__.py:%d' % nd.lineno)
    c.need('python entry', 1)
