"""Abstract interpreter for the Python layer.  Option values (names, flags) are concrete, arrays are abstract objects with a
storage identity (who shares memory with whom); every engine call, store and attribute assignment is an event.  Unknown
conditions take both branches."""
import ast
import itertools


class PyError(Exception):
    pass


class Val:
    pass


class Const(Val):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


class Unk(Val):
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


class Obj(Val):
    """array-like object: cls name, storage token, unique id"""
    n = itertools.count()

    def __init__(self, cls, store, kind='arr'):
        self.cls, self.store, self.kind = cls, store, kind
        self.id = next(Obj.n)

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.cls, self.store)


class DictV(Val):
    def __init__(self, items):
        self.items = items          # [(Val, Val)]


class ListV(Val):
    def __init__(self, items):
        self.items = items


class Eng(Val):
    """attribute path of a module: _richdem.rdX, np.zeros, gdal.X"""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Eng(%s)' % self.path


class Fn(Val):
    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls = node, mod, cls


class Cls(Val):
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


class Bound(Val):
    def __init__(self, o, name):
        self.o, self.name = o, name


class St:
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.ev = []
        self.res = None

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.ev = list(self.ev)
        return s


class Module:
    def __init__(self, path, modules=None, name=''):
        self.path = path
        self.name = name
        self.tree = ast.parse(open(path).read(), path)
        self.fns, self.cls, self.glob = {}, {}, {}
        self.imports = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.fns[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.cls[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.glob[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.glob[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module or '') + '.' + a.name
            elif isinstance(n, ast.Try):
                self.scan(n.body)


class Interp:
    maxdepth = 12

    def __init__(self, mods):
        self.mods = mods            # import path -> Module
        self.depth = 0

    # ------------------------------------------------ functions
    def call_fn(self, fn, args, kw, st, selfv=None):
        """-> [(kind, value, state)]"""
        if self.depth > self.maxdepth:
            return [('ret', Unk('depth'), st)]
        node = fn.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if selfv is not None:
            pos = [selfv] + pos
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        extra = []
        for i, v in enumerate(pos):
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                rest[k] = v
        for k, d in list(defaults.items()) + [(k, d) for k, d in zip(kwonly, a.kw_defaults) if d is not None]:
            if k not in env:
                env[k] = self.simple(d, fn.mod)
        for n_ in names + kwonly:
            env.setdefault(n_, Unk('missing ' + n_))
        if a.kwarg:
            env[a.kwarg.arg] = DictV([(Const(k), v) for k, v in rest.items()])
        elif rest and extra is not None and rest:
            env['__badkw'] = Const(sorted(rest))
        if a.vararg:
            env[a.vararg.arg] = ListV(extra)
        s = st.copy()
        old = s.env
        s.env = dict(env, __mod=fn.mod, __cls=fn.cls)
        self.depth += 1
        outs = self.block(node.body, s)
        self.depth -= 1
        res = []
        for k, v, s2 in outs:
            s2.env = old
            if k == 'n':
                k, v = 'ret', Const(None)
            res.append((k, v, s2))
        return res

    def simple(self, e, mod):
        s = St()
        s.env = {'__mod': mod, '__cls': None}
        r = self.ev(e, s)
        return r[0][0] if r and r[0][1].res is None else Unk('default')

    # ------------------------------------------------ statements: -> [(kind, value, st)]
    def block(self, body, st):
        cur = [st]
        done = []
        for n in body:
            nxt = []
            for s in cur:
                for k, v, s2 in self.stmt(n, s):
                    if k == 'n':
                        nxt.append(s2)
                    else:
                        done.append((k, v, s2))
            cur = nxt
            if len(cur) > 3000:
                raise PyError('too many paths')
        return done + [('n', None, s) for s in cur]

    def split(self, rs):
        """separate values from exceptions raised while evaluating"""
        ok = [(v, s) for v, s in rs if s.res is None]
        bad = []
        for v, s in rs:
            if s.res is not None:
                r = s.res
                s.res = None
                bad.append(('raise', r, s))
        return ok, bad

    def stmt(self, n, st):
        if isinstance(n, ast.Expr):
            ok, bad = self.split(self.ev(n.value, st))
            return [('n', None, s) for v, s in ok] + bad
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                return [('n', None, st)]
            ok, out = self.split(self.ev(n.value, st))
            for v, s in ok:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    self.assign(t, v, s, n)
                out.append(('n', None, s))
            return out
        if isinstance(n, ast.AugAssign):
            ok, out = self.split(self.ev(n.value, st))
            for v, s in ok:
                if isinstance(n.target, ast.Name):
                    old = s.env.get(n.target.id)
                    if isinstance(old, Obj):
                        s.ev.append(('store', old.store, n.lineno))
                    else:
                        s.env[n.target.id] = Unk('aug')
                else:
                    self.assign(n.target, Unk('aug'), s, n)
                out.append(('n', None, s))
            return out
        if isinstance(n, ast.Return):
            if n.value is None:
                return [('ret', Const(None), st)]
            ok, bad = self.split(self.ev(n.value, st))
            return [('ret', v, s) for v, s in ok] + bad
        if isinstance(n, ast.Raise):
            st.ev.append(('raise', n.lineno))
            return [('raise', Unk('exception'), st)]
        if isinstance(n, ast.If):
            out = []
            ok, bad = self.split(self.truth(n.test, st))
            for b, s in ok:
                out += self.block(n.body if b else n.orelse, s)
            return out + bad
        if isinstance(n, ast.For):
            ok, out = self.split(self.ev(n.iter, st))
            for v, s in ok:
                items = None
                if isinstance(v, ListV):
                    items = v.items
                elif isinstance(v, DictV):
                    items = [k for k, _ in v.items]
                elif isinstance(v, Const) and isinstance(v.v, (tuple, list, str)):
                    items = [Const(x) for x in v.v]
                if items is None or len(items) > 64:
                    s2 = s.copy()
                    self.assign(n.target, Unk('item'), s2, n)
                    for k, r, s3 in self.block(n.body, s2):
                        out.append((k if k in ('ret', 'raise') else 'n', r, s3))
                    out.append(('n', None, s))
                    continue
                cur = [s]
                for it in items:
                    nx = []
                    for q in cur:
                        self.assign(n.target, it, q, n)
                        for k, r, s3 in self.block(n.body, q):
                            if k in ('n', 'cont'):
                                nx.append(s3)
                            elif k == 'brk':
                                out.append(('n', None, s3))
                            else:
                                out.append((k, r, s3))
                    cur = nx
                out += [('n', None, q) for q in cur]
            return out
        if isinstance(n, ast.While):
            return [('n', None, st)] + [(k if k in ('ret', 'raise') else 'n', v, s) for k, v, s in self.block(n.body, st.copy())]
        if isinstance(n, ast.Try):
            out = []
            s0 = st.copy()
            for k, v, s in self.block(n.body, st):
                if k == 'raise' and n.handlers:
                    for h in n.handlers:
                        out += self.block(h.body, s.copy())
                elif k == 'n':
                    out += self.block(n.orelse, s)
                else:
                    out.append((k, v, s))
            if n.finalbody:
                res = []
                for k, v, s in out:
                    for k2, v2, s2 in self.block(n.finalbody, s):
                        res.append((k, v, s2) if k2 == 'n' else (k2, v2, s2))
                out = res
            return out
        if isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, Unk('with'), st, n)
            return self.block(n.body, st)
        if isinstance(n, ast.Break):
            return [('brk', None, st)]
        if isinstance(n, ast.Continue):
            return [('cont', None, st)]
        if isinstance(n, ast.FunctionDef):
            st.env[n.name] = Fn(n, st.env['__mod'])
            return [('n', None, st)]
        return [('n', None, st)]        # pass, import, assert, global, del

    def assign(self, t, v, s, n):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            for o, s2 in self.ev(t.value, s)[:1]:
                if isinstance(o, Obj):
                    s.heap[o.id, t.attr] = v
                    s.ev.append(('setattr', o, t.attr, v, n.lineno))
        elif isinstance(t, ast.Subscript):
            for o, s2 in self.ev(t.value, s)[:1]:
                if isinstance(o, Obj):
                    s.ev.append(('store', o.store, n.lineno))
                elif isinstance(o, DictV):
                    k = self.ev(t.slice, s)[0][0]
                    o.items = [(a, b) for a, b in o.items if not (isinstance(a, Const) and isinstance(k, Const) and a.v == k.v)] + [(k, v)]
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                w = v.items[i] if isinstance(v, ListV) and i < len(v.items) else Unk('unpack')
                self.assign(x, w, s, n)

    # ------------------------------------------------ conditions -> [(bool, st)]
    def truth(self, e, st):
        if isinstance(e, ast.BoolOp):
            res = []
            cur = [(None, st)]
            isand = isinstance(e.op, ast.And)
            for i, x in enumerate(e.values):
                nx = []
                for b, s in cur:
                    for b2, s2 in self.truth(x, s):
                        if s2.res is not None or b2 != isand or i == len(e.values) - 1:
                            res.append((b2, s2))
                        else:
                            nx.append((b2, s2))
                cur = nx
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b if s.res is None else b, s) for b, s in self.truth(e.operand, st)]
        res = []
        for v, s in self.ev(e, st):
            if s.res is not None:
                res.append((None, s))
                continue
            t = self.truthy(v)
            if t is None:
                res += [(True, s.copy()), (False, s)]
            else:
                res.append((t, s))
        return res

    def truthy(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, (DictV, ListV)):
            return bool(v.items)
        if isinstance(v, (Fn, Cls, Eng, Bound)):
            return True
        return None

    # ------------------------------------------------ expressions -> [(Val, St)]; an exception sets st.res
    def evs(self, es, st):
        acc = [([], st)]
        for e in es:
            nx = []
            for vs, s in acc:
                if s.res is not None:
                    nx.append((vs, s))
                    continue
                for v, s2 in self.ev(e, s):
                    nx.append((vs + [v], s2))
            acc = nx
        return acc

    def ev(self, e, st):
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            return [(Unk(type(e).__name__), st)]
        return m(e, st)

    def x_Constant(self, e, st):
        return [(Const(e.value), st)]

    def x_Name(self, e, st):
        if e.id in st.env:
            return [(st.env[e.id], st)]
        return [(self.glob(e.id, st.env['__mod']), st)]

    def glob(self, name, mod):
        if name in mod.fns:
            return Fn(mod.fns[name], mod)
        if name in mod.cls:
            return Cls(mod.cls[name], mod)
        if name in mod.imports:
            p = mod.imports[name]
            return Eng(p)
        if name in mod.glob:
            return self.simple(mod.glob[name], mod)
        return Eng('builtins.' + name)

    def x_Attribute(self, e, st):
        res = []
        for o, s in self.ev(e.value, st):
            if s.res is not None:
                res.append((o, s))
            elif isinstance(o, Eng):
                if o.path in self.mods:
                    res.append((self.glob(e.attr, self.mods[o.path]), s))
                else:
                    res.append((Eng(o.path + '.' + e.attr), s))
            elif isinstance(o, Obj) and (o.id, e.attr) in s.heap:
                res.append((s.heap[o.id, e.attr], s))
            else:
                res.append((Bound(o, e.attr), s))
        return res

    def x_Dict(self, e, st):
        res = []
        for vs, s in self.evs([x for x in e.keys if x is not None] + [v for k, v in zip(e.keys, e.values) if k is not None], st):
            n = len(vs) // 2
            res.append((DictV(list(zip(vs[:n], vs[n:]))), s))
        return res

    def seq(self, e, st):
        return [(ListV(vs), s) for vs, s in self.evs(e.elts, st)]
    x_List = x_Tuple = x_Set = seq

    def x_JoinedStr(self, e, st):
        return [(Unk('fstring'), st)]

    def x_Starred(self, e, st):
        return [(Unk('star'), st)]

    def x_IfExp(self, e, st):
        res = []
        for b, s in self.truth(e.test, st):
            if s.res is not None:
                res.append((Unk(), s))
            else:
                res += self.ev(e.body if b else e.orelse, s)
        return res

    def x_BoolOp(self, e, st):
        return [(Const(b), s) for b, s in self.truth(e, st)]

    def x_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(Const(b), s) for b, s in self.truth(e, st)]
        res = []
        for v, s in self.ev(e.operand, st):
            if isinstance(v, Const) and isinstance(e.op, ast.USub) and isinstance(v.v, (int, float)):
                v = Const(-v.v)
            res.append((v if isinstance(v, Const) else Unk(), s))
        return res

    def x_BinOp(self, e, st):
        res = []
        for (a, b), s in [(v, s) for v, s in self.evs([e.left, e.right], st) if len(v) == 2]:
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(e.op, ast.Add):
                try:
                    res.append((Const(a.v + b.v), s))
                    continue
                except TypeError:
                    pass
            if isinstance(a, Obj) or isinstance(b, Obj):
                res.append((Obj('ndarray', self.new()), s))
            elif isinstance(a, ListV) and isinstance(b, ListV) and isinstance(e.op, ast.Add):
                res.append((ListV(a.items + b.items), s))
            else:
                res.append((Unk('binop'), s))
        return res

    _n = itertools.count()

    def new(self, src=None):
        return 'copy%d of %s' % (next(Interp._n), src) if src is not None else 'new%d' % next(Interp._n)

    def x_Compare(self, e, st):
        if len(e.ops) != 1:
            return [(Unk('cmp'), st)]
        res = []
        for vs, s in self.evs([e.left, e.comparators[0]], st):
            if s.res is not None:
                res.append((Unk(), s))
                continue
            res.append((self.compare(e.ops[0], vs[0], vs[1]), s))
        return res

    def ident(self, v):
        if isinstance(v, Const):
            return ('c', v.v) if not isinstance(v.v, list) else None
        if isinstance(v, Cls):
            return ('cls', v.node.name)
        if isinstance(v, Eng):
            return ('eng', v.path)
        if isinstance(v, Obj):
            return ('obj', v.id)
        return None

    def compare(self, op, a, b):
        ia, ib = self.ident(a), self.ident(b)
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            if ia is not None and ib is not None:
                if ia[0] == 'obj' and isinstance(op, (ast.Eq, ast.NotEq)):
                    return Unk('array comparison')
                if 'obj' in (ia[0], ib[0]) and ia[0] != ib[0] and (a if ia[0] == 'c' else b).__class__ is Const and isinstance(op, (ast.Eq, ast.NotEq)):
                    return Unk('array comparison')
                return Const((ia == ib) == pos)
            return Unk('cmp')
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            items = [k for k, _ in b.items] if isinstance(b, DictV) else b.items if isinstance(b, ListV) else \
                [Const(x) for x in b.v] if isinstance(b, Const) and isinstance(b.v, (tuple, list)) else None
            if items is None or ia is None:
                return Unk('in')
            ids = [self.ident(x) for x in items]
            if ia in ids:
                return Const(pos)
            if None in ids:
                return Unk('in')
            return Const(not pos)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const({ast.Lt: lambda x, y: x < y, ast.Gt: lambda x, y: x > y, ast.LtE: lambda x, y: x <= y,
                              ast.GtE: lambda x, y: x >= y}[type(op)](a.v, b.v))
            except (KeyError, TypeError):
                pass
        return Unk('cmp')

    def x_Subscript(self, e, st):
        res = []
        for vs, s in self.evs([e.value, e.slice], st):
            if s.res is not None or len(vs) < 2:
                res.append((Unk(), s))
                continue
            o, k = vs
            ik = self.ident(k)
            if isinstance(o, DictV):
                hit = [v for kk, v in o.items if self.ident(kk) is not None and self.ident(kk) == ik]
                if ik is not None and hit:
                    res.append((hit[-1], s))
                elif ik is not None and all(self.ident(kk) is not None for kk, _ in o.items):
                    s.res = Unk('KeyError')
                    res.append((Unk(), s))
                elif o.items and all(isinstance(v, Eng) and v.path.startswith('_richdem.Array') for _, v in o.items):
                    res.append((o.items[0][1], s))      # which element type does not matter to storage
                else:
                    res.append((Unk('dict'), s))
            elif isinstance(o, ListV) and isinstance(k, Const) and isinstance(k.v, int) and -len(o.items) <= k.v < len(o.items):
                res.append((o.items[k.v], s))
            elif isinstance(o, Obj):
                res.append((Obj(o.cls, o.store), s))        # a view
            else:
                res.append((Unk('sub'), s))
        return res

    def x_Lambda(self, e, st):
        return [(Unk('lambda'), st)]

    def x_Call(self, e, st):
        kws = [k for k in e.keywords if k.arg is not None]
        res = []
        for vs, s in self.evs([e.func] + e.args + [k.value for k in kws], st):
            if s.res is not None:
                res.append((Unk(), s))
                continue
            f, args = vs[0], vs[1:1 + len(e.args)]
            kw = {k.arg: v for k, v in zip(kws, vs[1 + len(e.args):])}
            res += self.docall(f, args, kw, s, e)
        return res

    def lift(self, outs):
        res = []
        for k, v, s in outs:
            if k == 'raise':
                s.res = v
            res.append((v, s))
        return res

    def docall(self, f, args, kw, s, e):
        if isinstance(f, Fn):
            return self.lift(self.call_fn(f, args, kw, s))
        if isinstance(f, Cls):
            return self.construct(f, args, kw, s)
        if isinstance(f, Bound):
            return self.method(f.o, f.name, args, kw, s, e)
        if isinstance(f, Eng):
            return self.extern(f.path, args, kw, s, e)
        s.ev.append(('unknown-call', [self.storage(a) for a in args], e.lineno))
        return [(Unk('call'), s)]

    def construct(self, c, args, kw, s):
        new = [n for n in c.node.body if isinstance(n, ast.FunctionDef) and n.name == '__new__']
        if not new:
            return [(Obj(c.node.name, self.new()), s)]
        return self.lift(self.call_fn(Fn(new[0], c.mod, c), [c] + args, kw, s))

    def find_method(self, cls, name):
        for m in self.mods.values():
            if cls in m.cls:
                for n in m.cls[cls].body:
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        return Fn(n, m, m.cls[cls])
        return None

    def storage(self, v):
        return v.store if isinstance(v, Obj) else v

    def method(self, o, name, args, kw, s, e):
        if isinstance(o, Obj):
            if o.kind == 'arr':
                f = self.find_method(o.cls, name)
                if f is not None:
                    return self.lift(self.call_fn(f, args, kw, s, selfv=o))
                if name == 'copy' or name == 'astype' or name == 'flatten':
                    return [(Obj(o.cls, self.new(o.store)), s)]
                if name == 'view':
                    c = args[0] if args else None
                    return [(Obj(c.node.name if isinstance(c, Cls) else o.cls, o.store), s)]
                if name in ('reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes'):
                    return [(Obj(o.cls, o.store), s)]
                if name in ('fill', 'sort', 'put', 'itemset', 'resize', 'partition'):
                    s.ev.append(('store', o.store, e.lineno))
                    return [(Const(None), s)]
            s.ev.append(('method', o, name, args, e.lineno))
            return [(Unk(name), s)]
        if isinstance(o, DictV):
            if name in ('keys', 'values', 'items', 'get'):
                if name == 'get' and args:
                    ik = self.ident(args[0])
                    hit = [v for k, v in o.items if self.ident(k) == ik and ik is not None]
                    if hit:
                        return [(hit[-1], s)]
                    if ik is not None and all(self.ident(k) is not None for k, _ in o.items):
                        return [(args[1] if len(args) > 1 else Const(None), s)]
                    return [(Unk('get'), s)]
                return [(ListV([k for k, v in o.items] if name == 'keys' else [v for k, v in o.items] if name == 'values' else
                               [ListV([k, v]) for k, v in o.items]), s)]
        return [(Unk('method ' + name), s)]

    def extern(self, path, args, kw, s, e):
        n = path.split('.')[-1]
        if path == 'builtins.type' and len(args) == 1:
            o = args[0]
            if isinstance(o, Obj):
                for m in self.mods.values():
                    if o.cls in m.cls:
                        return [(Cls(m.cls[o.cls], m), s)]
                return [(Eng('numpy.' + o.cls), s)]
            if isinstance(o, Const):
                return [(Eng('builtins.' + type(o.v).__name__), s)]
            return [(Unk('type'), s)]
        if path == 'builtins.str' and len(args) == 1 and isinstance(args[0], Const):
            return [(Const(str(args[0].v)), s)]
        if path == 'builtins.isinstance' and len(args) == 2:
            o, c = args
            cs = c.items if isinstance(c, ListV) else [c]
            if isinstance(o, Obj) and all(isinstance(x, (Cls, Eng)) for x in cs):
                nm = [x.node.name if isinstance(x, Cls) else x.path.split('.')[-1] for x in cs]
                return [(Const(o.cls in nm or 'ndarray' in nm), s)]
            return [(Unk('isinstance'), s)]
        if path in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted') and args and isinstance(args[0], (ListV, DictV)):
            return [(args[0] if isinstance(args[0], ListV) else ListV([k for k, _ in args[0].items]), s)]
        if path in ('builtins.dict',) and not args:
            return [(DictV([(Const(k), v) for k, v in kw.items()]), s)]
        if path.startswith('numpy.'):
            if n in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_2d', 'squeeze', 'ravel', 'reshape', 'transpose', 'swapaxes', 'flipud', 'fliplr', 'require'):
                o = args[0] if args else Unk()
                return [(Obj('ndarray', o.store) if isinstance(o, Obj) else Obj('ndarray', self.new()), s)]
            if n == 'array':
                c = kw.get('copy')
                o = args[0] if args else Unk()
                if isinstance(c, Const) and c.v in (False, None) or (c is not None and not isinstance(c, Const)):
                    return [(Obj('ndarray', o.store) if isinstance(o, Obj) else Obj('ndarray', self.new()), s)]
                return [(Obj('ndarray', self.new(o.store if isinstance(o, Obj) else None)), s)]
            if n in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal'):
                if args and isinstance(args[0], Obj):
                    s.ev.append(('store', args[0].store, e.lineno))
                return [(Const(None), s)]
            if 'out' in kw and isinstance(kw['out'], Obj):
                s.ev.append(('store', kw['out'].store, e.lineno))
            return [(Obj('ndarray', self.new()), s)]
        if path in ('copy.deepcopy', 'copy.copy') and args and isinstance(args[0], Obj):
            return [(Obj(args[0].cls, self.new(args[0].store)), s)]
        if path.startswith('_richdem'):
            if n.startswith('Array2D') or n.startswith('Array3D'):
                o = args[0] if args else Unk()
                return [(Obj('wrapped', o.store if isinstance(o, Obj) else self.new(), 'wrapped'), s)]
            s.ev.append(('engine', path, [a for a in args], e.lineno))
            return [(Unk('engine result'), s)]
        s.ev.append(('extern', path, args, e.lineno))
        if path == 'builtins.getattr' and len(args) >= 2 and isinstance(args[0], Obj) and isinstance(args[1], Const):
            v = s.heap.get((args[0].id, args[1].v))
            return [(v if v is not None else Bound(args[0], args[1].v), s)]
        return [(Unk(n), s)]
