"""Every operation, application and distributed program is interpreted with Timer and ProgressBar inlined, so that their
running state is followed along every path (loops as a generic iteration).  A path on which Timer::start, stop, lap or
accumulated (directly or through a progress bar) reaches its misuse exception is a violation at the place that misuses it."""
from common import *
from p04 import E4
import p05

RULE = __doc__
CLS = ('richdem::Timer', 'richdem::ProgressBar')


class E12(E4):
    """what is not inlined does not touch timers (see Near): their state survives it"""
    def havoc(self, st, loc, name='h'):
        keep = {k: v for k, v in st.mem.items() if k.k == 'fld' and k.a[1] == 'running' and k is not loc and k.a[0] is not loc and isc(v)}
        E4.havoc(self, st, loc, name)
        st.mem.update(keep)

    def loop(self, x, st, c, inc, body, isdo, rng=None):
        """a loop that neither touches timers nor leaves the function only changes other state"""
        k = id(x)
        if k not in self.pol.skip:
            cs = [self.u.fns[y['fn']] for y in calls(x) if y['fn'] in self.u.fns]
            self.pol.skip[k] = not nodes(x, lambda y: y['k'] in ('ret', 'return', 'throw', 'goto', 'lambda')) and not any(
                g.get('cls') in CLS or here(self.u, g) and (self.pol.timed(g) or takes(self.u, g)) for g in cs)
        if not self.pol.skip[k]:
            return E4.loop(self, x, st, c, inc, body, isdo, rng)
        for l in list(st.mem):
            if not (l.k == 'fld' and l.a[1] == 'running'):
                st.mem[l] = fresh('skip')
        return [Out('n', st)]


class Near(p05.Pol):
    """programs: only what uses timers, directly or through its callees"""
    def __init__(self, u):
        self.memo = {}
        self.skip = {}
        self.u = u

    def timed(self, f):
        if f['fn'] not in self.memo:
            self.memo[f['fn']] = False
            self.memo[f['fn']] = uses(self.u, f) or any(
                self.timed(self.u.fns[y['fn']]) for y in calls(f['body']) if y['fn'] in self.u.fns and here(self.u, self.u.fns[y['fn']]))
        return self.memo[f['fn']]

    def inline(self, eng, f, depth):
        return (f.get('cls') in CLS or here(eng.u, f) and (f.get('lam') or f.get('cls') and self.timed(f) or takes(eng.u, f))) and Policy.inline(self, eng, f, depth)


def here(u, f):
    return inrepo(u, f) and ('/apps/' in u.file(f) or '/programs/' in u.file(f))


def takes(u, f):
    return any(bare(u.types[p['t']]) in CLS for p in f['p'])


def uses(u, f):
    return bool(nodes(f['body'], lambda y: y['k'] == 'call' and y.get('fn') in u.fns and u.fns[y['fn']].get('cls') in CLS))


def main_roots(u):
    seen, r = set(), []
    for f in u.fns.values():
        if here(u, f) and not f.get('cls') and not f.get('lam') and not takes(u, f) and uses(u, f) and f['qn'] not in seen:
            seen.add(f['qn'])       # one instance of a template: element types do not matter to timers
            r.append(f)
    return r


def run(c, tier):
    us = units.load(units.harness('core', 'depr', 'dh', 'flow', 'misc', 'flat'))
    ap = units.load([p for p in units.apps() + units.programs() if 'Timer' in open(p).read() or 'ProgressBar' in open(p).read()])
    each_root(c, us[1:], one)
    each_root(c, ap, lambda c, u, f: one(c, u, f, Near(u)), alone=False,
              select=main_roots)
    c.need('use', 60)


def user(ev):
    for q in reversed(ev.stack):
        if not any(short(q[0]).startswith(short(k) + '::') for k in CLS):
            return q
    return ev.stack[0]


def one(c, u, f, pol=None):
    seen = set()

    def on(eng, ev, st):
        seen.update(x[0] for x in ev.stack)
        top = ev.stack[-1][0]
        if not any(top.startswith(k + '::') for k in CLS):
            return
        w = user(ev)
        line = ev.stack[ev.stack.index(w) + 1][1] if ev.stack.index(w) + 1 < len(ev.stack) else ev.line
        if ev.kind == 'throw':
            key = '%s %s' % (short(w[0]), short(top))
            c.bad('misuse', key, '%s is used in %s on a path on which it raises its misuse error (%s)' % (short(top), short(w[0]), msg(ev)), '%s:%s' % (units.rel(ev.file), ev.line))
        elif ev.kind == 'enter':
            c.ok('use', '%s %s' % (short(w[0]), short(top)))
    e = (E12 if pol else E4)(u, pol or p05.Pol(), on)
    try:
        e.analyse(f)
    except Budget:
        raise units.ToolError('analysis budget exceeded in ' + f['qn'])
    c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))
    return seen


def msg(ev):
    s = nodes(ev.node, lambda y: y.get('k') == 'str')
    return s[0].get('v', '') if s else ''
