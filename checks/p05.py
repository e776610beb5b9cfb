"""Each OpenMP parallel region is interpreted as one generic iteration with its callees inlined.  A throw that is reachable
on a path inside the region, and that no try block entered within the same region covers, would leave the region and
terminate the process; so would a call of a checked standard accessor (at, stoi, ...) or of a repository function that is
not inlined but contains an uncovered throw."""
import re
from common import *
from p04 import E4

RULE = __doc__
THROWING = {'at', 'stoi', 'stol', 'stoul', 'stoll', 'stoull', 'stod', 'stof', 'lexical_cast'}


class Pol(Policy):
    noinline_cls = tuple(x for x in Policy.noinline_cls if 'ProgressBar' not in x and 'Timer' not in x)
    maxdepth = 9


class Shallow(Pol):
    def inline(self, eng, f, depth):
        fl = eng.u.files[f['file']]
        return ('/apps/' in fl or '/src/' in fl or f.get('cls') in (ARR2, ARR3) or f.get('lam')) and Policy.inline(self, eng, f, depth)


class E5(E4):
    def s_omp(self, x, st):
        if 'parallel' in x['dir']:
            old = st.tags.get('__omptry')
            st.tags['__omptry'] = st.tags.get('__try', 0)
            outs = E4.s_omp(self, x, st)
            for o in outs:
                o.st.tags['__omptry'] = old
            return outs
        return E4.s_omp(self, x, st)


def covered(st):
    b = st.tags.get('__omptry')
    return b is None or st.tags.get('__try', 0) > b


def uncovered(u, f, memo):
    """names of repository functions reachable from f that throw outside any try block"""
    if f['fn'] in memo:
        return memo[f['fn']]
    memo[f['fn']] = r = set()
    st = [f.get('body')]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get('k') == 'try':
                st.append(y['h'])
                continue
            if y.get('k') == 'throw':
                r.add(f['qn'])
            if y.get('k') in ('call', 'ctor') and y.get('fn') in u.fns and inrepo(u, u.fns[y['fn']]):
                r |= uncovered(u, u.fns[y['fn']], memo)
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            st.extend(y)
    return r


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat'))
    ap = units.load([p for p in units.apps() if 'omp' in open(p).read()] + units.srcs('omp'))
    each_root(c, us[1:], one)
    each_root(c, ap, lambda c, u, f: one(c, u, f, False), alone=False,
              select=lambda u: [f for f in u.fns.values() if inrepo(u, f) and ('/apps/' in u.file(f) or '/src/' in u.file(f)) and nodes(f['body'], lambda y: y['k'] == 'omp')])
    c.need('region', 10)
    c.assume('memory allocation does not fail')


def one(c, u, f, deep=True):
    seen = set()
    regs = {}

    def on(eng, ev, st):
        seen.update(x[0] for x in ev.stack)
        if ev.kind == 'omp' and 'parallel' in (ev.info or ''):
            regs.setdefault(id(ev.node), (units.rel(ev.file), ev.line, fname(ev), []))
        if not any('parallel' in o.a[1] for o in st.omp):
            return
        r = [regs.get(o.a[0]) for o in st.omp if 'parallel' in o.a[1]][-1]
        if ev.kind == 'throw' and not covered(st):
            key = '%s throw in %s' % (r[2], fname(ev))
            c.bad('throw', key, 'an exception thrown in %s can leave the parallel region of %s (line %s) and terminate the process' % (
                fname(ev), r[2], r[1]), evwhere(ev))
        elif ev.kind == 'throw':
            c.ok('handled', '%s:%s' % (units.rel(ev.file), ev.line))
        elif ev.kind == 'call' and ev.node is not None and not covered(st):
            n = str(ev.fn or '').split('::')[-1]
            g = eng.u.fns.get(ev.node.get('fn'))
            if g is not None and inrepo(eng.u, g) and short(g['qn']) != fname(ev):
                for t in uncovered(eng.u, g, {}):
                    c.bad('throw', '%s throw in %s' % (r[2], short(t)), 'an exception thrown in %s can leave the parallel region of %s (line %s) and terminate the process' % (
                        short(t), r[2], r[1]), evwhere(ev))
            if n in THROWING:
                c.bad('throw', '%s call of %s in %s' % (r[2], n, fname(ev)), 'the checked call %s in %s can throw out of the parallel region of %s (line %s)' % (
                    n, fname(ev), r[2], r[1]), evwhere(ev))
    e = E5(u, Pol() if deep else Shallow(), on)
    try:
        e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    for r in regs.values():
        c.fn('%s:%s' % (r[0], r[2]), r[1])
        c.ok('region', '%s:%s' % (r[0], r[2]))
    return seen
