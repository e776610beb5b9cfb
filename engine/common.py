"""Shared helpers for the checks."""
import units
from ai import *


def walk(x, f):
    """visit every AST node"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            f(y)
            st.extend(v for v in reversed(list(y.values())) if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            st.extend(v for v in reversed(y) if isinstance(v, (dict, list)))


def nodes(x, pred):
    r = []
    walk(x, lambda y: r.append(y) if 'k' in y and pred(y) else None)
    return r


def calls(x):
    return nodes(x, lambda y: y['k'] in ('call', 'ctor') and y.get('fn'))


def inrepo(u, f):
    fl = u.file(f)
    return fl.startswith(units.REPO + '/') and '/cereal/' not in fl and '/catch/' not in fl and bool(f.get('body'))


def roots(u):
    """functions of the repository that the harness (the public surface) calls directly"""
    ids = []
    for f in u.fns.values():
        if '/verif/' in u.file(f) or '/harness/' in u.file(f):
            for c in calls([f.get('body'), f.get('inits')]):
                g = u.fns.get(c['fn'])
                if g is not None and inrepo(u, g) and g['fn'] not in ids:
                    ids.append(g['fn'])
    return [u.fns[i] for i in ids]


def where(u, f, line=None):
    return '%s:%s' % (units.rel(u.file(f)), line or f['line'])


def evwhere(ev):
    return '%s:%s' % (units.rel(ev.file), ev.line)


def short(qn):
    return qn.replace('richdem::', '').replace('dephier::', '')


def fname(ev, n=-1):
    return short(ev.stack[n][0]) if ev.stack else '?'


def analyse_all(us, c, mk_engine, select=None, dedupe=True):
    """interpret every selected root of every unit; returns list of (unit, f, outs, engine)"""
    res = []
    for u in us:
        for f in (select(u) if select else roots(u)):
            e = mk_engine(u, f)
            try:
                outs = e.analyse(f)
            except Budget:
                raise units.ToolError('analysis budget exceeded in ' + f['qn'])
            c.fn(f['qn'] + ('<%s>' % f['ta'] if f.get('ta') else ''))
            res.append((u, f, outs, e))
    return res


def standalone(u, seen):
    """functions of the repository that no analysis of a root entered (recursion, limits, function pointers); `seen` holds
    the qualified names on the stacks of the events of those analyses"""
    res = []
    for f in u.fns.values():
        if not inrepo(u, f) or f.get('lam') or f['qn'] in seen:
            continue
        cls = f.get('cls', '')
        if cls or f['qn'].startswith('std::') or '/common/' in u.file(f) or '/richdem/ui/' in u.file(f):
            continue
        res.append(f)
    return res


_job = None


def _run_job(i):
    c0, work, items = _job
    c = c0.child()
    try:
        r = work(c, items[i])
        return i, c.pack(), r, None
    except units.ToolError as ex:
        return i, c.pack(), None, str(ex)


def pmap(c, items, work, procs=7):
    """work(c, item) for every item in forked processes; obligations are merged into c; returns the (picklable) results"""
    global _job
    import multiprocessing as mp
    items = list(items)
    if len(items) <= 1:
        return [work(c, x) for x in items]
    units.tmpdir()
    _job = (c, work, items)
    res = [None] * len(items)
    err = None
    with mp.get_context('fork').Pool(min(procs, len(items))) as p:
        for i, pk, r, ex in p.imap_unordered(_run_job, range(len(items))):
            c.merge(pk)
            res[i] = r
            err = err or ex
    _job = None
    if err:
        raise units.ToolError(err)
    return res


def each_root(c, us, work, select=None, alone=True):
    """work(c, u, f) -> set of names entered; run for every public function, then for those nothing entered"""
    jobs = [(k, f['fn']) for k, u in enumerate(us) for f in (select(u) if select else roots(u)) if f.get('cls') not in (ARR2, ARR3)]
    rs = pmap(c, jobs, lambda c, j: (j[0], work(c, us[j[0]], us[j[0]].fns[j[1]])))
    if alone:
        seen = {}
        for k, s in rs:
            seen.setdefault(k, set()).update(s or ())
        jobs = [(k, f['fn']) for k, u in enumerate(us) for f in standalone(u, seen.get(k, set()))]
        pmap(c, jobs, lambda c, j: work(c, us[j[0]], us[j[0]].fns[j[1]]) and None)
