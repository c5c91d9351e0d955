"""Abstract interpreter for Python classes: values are terms over attributes, arguments and calls; elements of
containers are tied to the position they come from; branch conditions become facts. Loops are gone over with
their variables generalised, nothing is executed.

terms: ('c', const) ('arg', name) ('self',) ('name', dotted) ('attr', v, name) ('call', f, args, kw, site)
       ('tup', vs) ('bin', op, a, b) ('cmp', op, a, b) ('not', v) ('new', cls, ((param, v), ...))
       ('obj', kind, site) ('ix', seq, tag) ('el', seq, tag) ('sub', v, i) ('lookup', dict, key, default)
       ('map', iterated, tag, alternatives, all) ('phi', loop, name)"""
import ast

PURE = {'len', 'range', 'enumerate', 'zip', 'fileno', 'get', 'items', 'keys', 'values', 'list', 'tuple', 'set', 'sorted', 'bool', 'int', 'bytes', 'isinstance', 'join', 'format', 'any', 'all', 'reversed', 'iter'}
NONE = ('c', None)
CAP = 96


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, (tuple, frozenset)):
        return any(contains(y, x) for y in v)
    return False


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(subst(y, a, b) for y in v)
    if isinstance(v, frozenset):
        return frozenset(subst(y, a, b) for y in v)
    return v


def tags(v, out=None):
    """positions of elements occurring in v, outermost first"""
    out = [] if out is None else out
    if isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple) and len(v) == 3 and v[0] in ('ix', 'el'):
            if v[2] not in out:
                out.append(v[2])
        for y in v:
            tags(y, out)
    return out


class St:
    __slots__ = ('env', 'heap', 'facts')

    def __init__(self, env, heap, facts):
        self.env, self.heap, self.facts = env, heap, facts

    def key(self):
        return frozenset(self.env.items()), frozenset(self.heap.items()), self.facts

    def put(self, n, v):
        e = dict(self.env)
        e[n] = v
        return St(e, self.heap, self.facts)

    def set(self, o, n, v):
        h = dict(self.heap)
        h[(o, n)] = v
        at = ('attr', o, n)
        return St(self.env, h, frozenset(f for f in self.facts if not contains(f[0], at)))

    def touch(self, o):
        """the container o changes"""
        return St(self.env, self.heap, frozenset(f for f in self.facts if not contains(f[0], o)))

    def add(self, c, pol):
        return St(self.env, self.heap, self.facts | {(c, pol)})


def unique(sts):
    seen, out = set(), []
    for s in sts:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > CAP:
        # give up what is known of conditions where the rest agrees
        m = {}
        for s in out:
            k = s.key()[:2]
            m[k] = St(s.env, s.heap, s.facts & m[k].facts) if k in m else s
        out = list(m.values())
    return out[:4 * CAP]


class Out:
    def __init__(self):
        self.next, self.brk, self.cont, self.ret, self.exc = [], [], [], [], []

    def take(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.exc += o.exc


class Interp:
    def __init__(self, tree):
        self.classes, self.functions, self.names, self.globals = {}, {}, {}, {}
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = {m.name: m for m in n.body if isinstance(m, ast.FunctionDef)}
                for m in n.body:
                    if isinstance(m, ast.Assign) and isinstance(m.value, ast.Constant):
                        for t in m.targets:
                            self.globals[(n.name, t.id)] = ('c', m.value.value)
            elif isinstance(n, ast.FunctionDef):
                self.functions[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = '%s.%s' % (n.module, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.globals[n.targets[0].id] = n.value
        self.hook = self.loopend = None
        self.cls = None
        self.stack = []
        self.phis = {}
        self.trying = []
        self.yields = []
        self.depth = 0

    # -------------------------------------------------------------- running
    def run(self, cls, name, facts=(), heap=None, args=None):
        """[(state, value)] of the normal ends, [states] of exceptions"""
        f = self.classes[cls][name]
        self.cls = cls
        self.stack = [name]
        env = {}
        ps = f.args.args
        for k, p in enumerate(ps):
            env[p.arg] = ('self',) if k == 0 else ('arg', p.arg)
        for p in f.args.kwonlyargs:
            env[p.arg] = ('arg', p.arg)
        env.update(args or {})
        o = self.block(f.body, [St(env, dict(heap or {}), frozenset(facts))])
        return [(s, NONE) for s in o.next] + o.ret, o.exc

    def block(self, body, sts):
        out = Out()
        for n in body:
            sts = unique(sts)
            for t in self.trying:
                t += sts
            if not sts:
                break
            nxt = []
            for s in sts:
                o = self.stmt(n, s)
                nxt += o.next
                out.take(o)
            sts = nxt
        out.next = unique(sts)
        return out

    def stmt(self, n, s):
        out = Out()
        if isinstance(n, ast.Expr):
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                y = n.value
                for t, v in self.ev(y.value, s):
                    self.yields.append((isinstance(y, ast.YieldFrom), v))
                    out.next.append(t)
            else:
                out.next = [t for t, _ in self.ev(n.value, s)]
        elif isinstance(n, ast.Assign):
            for t, v in self.ev(n.value, s):
                sts = [t]
                for tg in n.targets:
                    sts = [y for x in sts for y in self.assign(tg, v, x)]
                out.next += sts
        elif isinstance(n, ast.AnnAssign):
            out.next = [y for t, v in self.ev(n.value, s) for y in self.assign(n.target, v, t)] if n.value else [s]
        elif isinstance(n, ast.AugAssign):
            ld = ast.copy_location(ast.fix_missing_locations(ast.parse(ast.unparse(n.target), mode='eval')).body, n)
            for t, old in self.ev(ld, s):
                for u, v in self.ev(n.value, t):
                    if old[0] == 'obj' and old[1] == 'list' and isinstance(n.op, ast.Add):
                        u = self.extend(u, old, v)
                        out.next.append(u)
                    else:
                        out.next += self.assign(n.target, self.binop(type(n.op).__name__, old, v), u)
        elif isinstance(n, ast.If):
            for t, v in self.ev(n.test, s):
                for pol, body in ((True, n.body), (False, n.orelse)):
                    u = self.assume(t, v, pol)
                    if u is not None:
                        o = self.block(body, [u])
                        out.next += o.next
                        out.take(o)
        elif isinstance(n, (ast.While, ast.For)):
            return self.loop(n, s)
        elif isinstance(n, ast.Return):
            out.ret = [(t, v) for t, v in (self.ev(n.value, s) if n.value else [(s, NONE)])]
        elif isinstance(n, ast.Raise):
            out.exc = [t for t, _ in self.ev(n.exc, s)] if n.exc else [s]
        elif isinstance(n, ast.Break):
            out.brk = [s]
        elif isinstance(n, ast.Continue):
            out.cont = [s]
        elif isinstance(n, ast.Try):
            self.trying.append([])
            o = self.block(n.body, [s])
            mid = self.trying.pop() + o.exc
            out.brk, out.cont, out.ret = o.brk, o.cont, o.ret
            o2 = self.block(n.orelse, o.next)
            out.take(o2)
            nxt = o2.next
            every = False
            for h in n.handlers:
                hs = [t.put(h.name, ('call', ('name', 'exception'), (), (), (h.lineno,))) if h.name else t for t in unique(mid)]
                o3 = self.block(h.body, hs)
                out.take(o3)
                nxt = nxt + o3.next
                every |= h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')
            if not every:
                out.exc += mid
            if n.finalbody:
                fin = Out()
                for kind in ('brk', 'cont', 'exc'):
                    o4 = self.block(n.finalbody, getattr(out, kind))
                    setattr(fin, kind, o4.next)
                    fin.ret += o4.ret
                for t, v in out.ret:
                    o4 = self.block(n.finalbody, [t])
                    fin.ret += [(u, v) for u in o4.next] + o4.ret
                o4 = self.block(n.finalbody, nxt)
                fin.take(o4)
                out, nxt = fin, o4.next
            out.next = nxt
        elif isinstance(n, ast.With):
            sts = [s]
            for i in n.items:
                sts = [y for x in sts for t, v in self.ev(i.context_expr, x) for y in (self.assign(i.optional_vars, v, t) if i.optional_vars else [t])]
            o = self.block(n.body, sts)
            out.take(o)
            out.next = o.next
        elif isinstance(n, ast.FunctionDef):
            out.next = [s.put(n.name, ('fn', n))]
        elif isinstance(n, ast.Assert):
            for t, v in self.ev(n.test, s):
                for pol, to in ((True, out.next), (False, out.exc)):
                    u = self.assume(t, v, pol)
                    if u is not None:
                        to.append(u)
        else:
            out.next = [s]
        return out

    def loop(self, n, s):
        out = Out()
        tag = ('t', n.lineno, n.col_offset) + tuple(self.stack[1:])
        done = []
        for s1, it in (self.ev(n.iter, s) if isinstance(n, ast.For) else [(s, None)]):
            if it is not None and it[0] == 'self':
                it = self.iterated(s1, it)
            assigned = {x.id for y in n.body + ([n.target] if it is not None else []) for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            env = dict(s1.env)
            for v in assigned:
                if v in env:
                    self.phis.setdefault((tag, v), set()).add(env[v])
                    env[v] = ('phi', tag, v)
            heap = dict(s1.heap)
            lists = [o for o, a in heap if a == '#seq']
            for o in lists:
                heap[(o, '#seq')] = (('head', tag),)
            facts = s1.facts
            rounds = 0
            while True:
                rounds += 1
                h = St(env, heap, facts)
                ends, brk, leave = [], [], []
                if it is None:
                    start = []
                    for t, v in self.ev(n.test, h):
                        u = self.assume(t, v, True)
                        if u is not None:
                            start.append(u)
                        u = self.assume(t, v, False)
                        if u is not None:
                            leave.append(u)
                else:
                    start = [y for v in self.elements(h, it, tag) for y in self.assign(n.target, v, h)]
                    leave = [h]
                o = self.block(n.body, start)
                ends, brk = unique(o.next + o.cont), o.brk
                # what the next round starts with
                nheap, nfacts = dict(heap), facts
                for e in ends:
                    for k, v in e.heap.items():
                        if k[1] == '#seq':
                            continue
                        if k[1] == '#items':
                            nheap[k] = nheap.get(k, frozenset()) | v
                        elif k not in nheap:
                            nheap[k] = ('phi', tag, k) if not (isinstance(k[0], tuple) and k[0][0] == 'obj') else v
                            self.phis.setdefault((tag, k), set()).update({('attr',) + k, v})
                        elif nheap[k] != v:
                            self.phis.setdefault((tag, k), set()).update({nheap[k], v} - {('phi', tag, k)})
                            nheap[k] = ('phi', tag, k)
                    nfacts = nfacts & e.facts
                nfacts = frozenset(f for f in nfacts if not contains(f[0], tag))
                if rounds > 8 or (nheap == heap and nfacts == facts):
                    break
                heap, facts = nheap, nfacts
            for e in ends:
                for v in assigned:
                    if v in e.env:
                        self.phis.setdefault((tag, v), set()).add(e.env[v])
            if self.loopend:
                self.loopend(n, it, tag, ends, bool(brk or o.ret))
            seqs = {}
            for l in lists:
                k = (l, '#seq')
                grown = {e.heap.get(k, ())[1:] for e in ends if e.heap.get(k, (0,))[0] == ('head', tag)}
                same = all(e.heap.get(k, (0,))[:1] == (('head', tag),) for e in ends)
                before = s1.heap[k]
                if same and grown <= {()}:
                    seqs[k] = before
                elif same and it is not None and not brk and all(len(g) == 1 and g[0][0] == 'one' for g in grown):
                    seqs[k] = before + (('map', it, tag, frozenset(g[0][1] for g in grown), True),)
                elif same and all(g == () or len(g) == 1 and g[0][0] == 'one' for g in grown):
                    seqs[k] = before + (('some', tag, frozenset(g[0][1] for g in grown if g)),)
                else:
                    seqs[k] = (('?',),)
            after = leave
            if it is not None:
                # leaving after some round: variables are those of the last one
                after = [h]
            if n.orelse:
                o5 = self.block(n.orelse, after)
                out.take(o5)
                after = o5.next
            res = []
            for x in after:
                hp = dict(x.heap)
                hp.update(seqs)
                res.append(St(x.env, hp, x.facts))
            for x in brk:
                hp = dict(x.heap)
                for k, v in seqs.items():
                    hp[k] = (('?',),) if hp.get(k, ())[:1] == (('head', tag),) and v != s1.heap[k] else v
                res.append(St(x.env, hp, x.facts))
            done += res
            out.ret += o.ret
            out.exc += o.exc
        out.next = unique(done)
        return out

    def iterated(self, s, me):
        """what iterating over an object of this class goes through"""
        f = self.classes.get(self.cls, {}).get('__iter__')
        if f is None or self.depth > 6:
            return me
        keep, self.yields = self.yields, []
        self.depth += 1
        o = self.block(f.body, [St({f.args.args[0].arg: me}, s.heap, s.facts)])
        self.depth -= 1
        ys, self.yields = self.yields, keep
        vals = {v for _, v in o.ret if v != NONE}
        if len(ys) == 1 and not vals:
            fr, v = ys[0]
            return v if fr else v[1] if v[0] == 'el' else me
        if len(vals) == 1 and not ys:
            v = vals.pop()
            return v[2][0] if v[0] == 'call' and v[1] == ('name', 'iter') else v
        return me

    def elements(self, s, it, tag):
        """values an iteration over `it` gives"""
        if it[0] == 'call':
            f, a = it[1], it[2]
            if f == ('name', 'enumerate') and a:
                if len(a) > 1 and a[1] != ('c', 0) or it[3] and dict(it[3]) != {'start': ('c', 0)}:
                    return [('tup', (('bin', 'Add', ('ix', a[0], tag), a[1] if len(a) > 1 else it[3][0][1]), v)) for v in self.elements(s, a[0], tag)]
                return [('tup', (('ix', self.seq(a[0]), tag), v)) for v in self.elements(s, a[0], tag)]
            if f == ('name', 'zip'):
                vs = [self.elements(s, x, tag) for x in a]
                return [('tup', tuple(v[0] for v in vs))] if all(vs) else []
            if f == ('name', 'range') and len(a) == 1 and a[0][0] == 'call' and a[0][1] == ('name', 'len'):
                return [('ix', self.seq(a[0][2][0]), tag)]
            if f in (('name', 'list'), ('name', 'tuple'), ('name', 'iter')) and len(a) == 1:
                return self.elements(s, a[0], tag)
            if f[0] == 'attr' and f[2] in ('items', 'keys', 'values') and not a:
                d = f[1]
                if d[0] == 'obj':
                    out = []
                    for k, v in s.heap.get((d, '#items'), ()):
                        for t in tags(k)[:1]:
                            k, v = subst(k, t, ('in', d, tag)), subst(v, t, ('in', d, tag))
                        out.append({'items': ('tup', (k, v)), 'keys': k, 'values': v}[f[2]])
                    return out
                k = ('el', d, tag)
                v = ('sub', d, k)
                return [{'items': ('tup', (k, v)), 'keys': k, 'values': v}[f[2]]]
        if it[0] == 'obj':
            out = []
            for k, v in s.heap.get((it, '#items'), ()):
                x = k if it[1] == 'dict' else v
                for t in tags(x)[:1]:
                    x = subst(x, t, ('in', it, tag))
                out.append(x)
            return out
        if it[0] == 'map':
            return [subst(v, it[2], tag) for v in it[3]]
        if it[0] == 'tup':
            return list(it[1])
        return [('el', it, tag)]

    def seq(self, v):
        if v[0] == 'call' and v[1] in (('name', 'list'), ('name', 'tuple'), ('name', 'iter')) and len(v[2]) == 1:
            return self.seq(v[2][0])
        return v

    # -------------------------------------------------------------- assignment
    def assign(self, tg, v, s):
        if isinstance(tg, ast.Name):
            return [s.put(tg.id, v)]
        if isinstance(tg, (ast.Tuple, ast.List)):
            v = self.force(s, v)
            sts = [s]
            for k, e in enumerate(tg.elts):
                x = v[1][k] if v[0] == 'tup' and len(v[1]) == len(tg.elts) else ('sub', v, ('c', k))
                sts = [y for z in sts for y in self.assign(e, x, z)]
            return sts
        if isinstance(tg, ast.Attribute):
            out = []
            for t, o in self.ev(tg.value, s):
                if self.hook:
                    r = self.hook(self, t, ('setattr', tg.attr), (o, v), {}, tg)
                    if isinstance(r, St):
                        t = r
                out.append(t.set(self.force(t, o), tg.attr, v))
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for t, o in self.ev(tg.value, s):
                for u, k in self.ev(tg.slice, t):
                    if self.hook:
                        r = self.hook(self, u, ('setitem',), (o, k, v), {}, tg)
                        if isinstance(r, St):
                            u = r
                    out.append(self.store(u, o, k, v))
            return out
        return [s]

    def store(self, s, o, k, v):
        s = s.touch(o)
        h = dict(s.heap)
        h[(o, '#items')] = h.get((o, '#items'), frozenset()) | {(k, v)}
        if (o, '#seq') in h:
            h[(o, '#seq')] = (('?',),)
        return St(s.env, h, s.facts)

    def extend(self, s, o, v, one=False):
        s = s.touch(o)
        h = dict(s.heap)
        if one:
            h[(o, '#items')] = h.get((o, '#items'), frozenset()) | {(None, v)}
            h[(o, '#seq')] = h.get((o, '#seq'), (('?',),)) + (('one', v),)
        else:
            vs = self.elements(s, v, ('t', 'ext'))
            h[(o, '#items')] = h.get((o, '#items'), frozenset()) | {(None, x) for x in vs}
            h[(o, '#seq')] = (('?',),)
        return St(s.env, h, s.facts)

    # -------------------------------------------------------------- conditions
    def norm(self, v):
        """(condition, polarity)"""
        pol = True
        while True:
            if v[0] == 'not':
                v, pol = v[1], not pol
            elif v[0] == 'cmp':
                op, a, b = v[1:]
                if op in ('NotEq', 'IsNot', 'NotIn'):
                    v, pol = ('cmp', {'NotEq': 'Eq', 'IsNot': 'Eq', 'NotIn': 'In'}[op], a, b), not pol
                elif op == 'Is':
                    v = ('cmp', 'Eq', a, b)
                elif op == 'Gt':
                    v = ('cmp', 'Lt', b, a)
                elif op == 'GtE':
                    v, pol = ('cmp', 'Lt', a, b), not pol
                elif op == 'LtE':
                    v, pol = ('cmp', 'Lt', b, a), not pol
                elif op == 'Eq' and a[0] == 'c' and b[0] != 'c':
                    v = ('cmp', 'Eq', b, a)
                else:
                    return v, pol
            elif v[0] == 'call' and v[1] == ('name', 'bool') and len(v[2]) == 1:
                v = v[2][0]
            elif v[0] == 'call' and v[1] == ('name', 'len') and len(v[2]) == 1:
                v = v[2][0]
            else:
                return v, pol

    def holds(self, s, v):
        """True, False or None"""
        v, pol = self.norm(v)
        r = self._holds(s, v)
        return None if r is None else r == pol

    def _holds(self, s, v):
        if (v, True) in s.facts:
            return True
        if (v, False) in s.facts:
            return False
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('new', 'self', 'fn', 'name') or v[0] == 'obj' and v[1] not in ('list', 'dict'):
            return True
        if v[0] == 'tup':
            return bool(v[1])
        if v[0] == 'cmp':
            op, a, b = v[1:]
            if op == 'Eq':
                if a == b:
                    return True
                if a[0] == 'c' and b[0] == 'c':
                    return a[1] == b[1]
                if b[0] == 'c':
                    for f, pol in s.facts:
                        if pol and f[0] == 'cmp' and f[1] == 'Eq' and f[2] == a and f[3][0] == 'c':
                            return f[3][1] == b[1]
                    if b[1] is None and (a[0] in ('tup', 'obj', 'new', 'bin', 'map', 'name') or (a, True) in s.facts or (a, False) in s.facts and False):
                        return False
                    if b[1] and (a, False) in s.facts:
                        return False
                if a[0] == 'name' and b[0] == 'name' and a != b:
                    return False
            if op == 'In':
                xs = b[1] if b[0] == 'tup' else None
                if xs is not None:
                    rs = [self._holds(s, ('cmp', 'Eq', a, x)) for x in xs]
                    if True in rs:
                        return True
                    if all(r is False for r in rs):
                        return False
            if op == 'Lt' and a[0] == 'c' and b[0] == 'c':
                try:
                    return a[1] < b[1]
                except TypeError:
                    return None
            return None
        # truth of a value compared before
        for f, pol in s.facts:
            if pol and f[0] == 'cmp' and f[1] == 'Eq' and f[2] == v and f[3][0] == 'c':
                return bool(f[3][1])
        return None

    def assume(self, s, v, pol):
        v, p = self.norm(v)
        pol = pol == p
        h = self._holds(s, v)
        if h is not None:
            return s if h == pol else None
        if v[0] == 'cmp' and v[1] == 'In' and v[3][0] == 'tup' and not pol:
            for x in v[3][1]:
                s = s.add(('cmp', 'Eq', v[2], x), False)
        if v[0] == 'cmp' and v[1] == 'In' and v[3][0] == 'tup' and pol and len(v[3][1]) == 1:
            s = s.add(('cmp', 'Eq', v[2], v[3][1][0]), True)
        return s.add(v, pol)

    # -------------------------------------------------------------- expressions
    def evs(self, ns, s):
        res = [(s, ())]
        for n in ns:
            if isinstance(n, ast.Starred):
                res = [(u, vs + (('star', v),)) for t, vs in res for u, v in self.ev(n.value, t)]
            else:
                res = [(u, vs + (v,)) for t, vs in res for u, v in self.ev(n, t)]
        return res

    def force(self, s, v):
        """what a lookup in a known dictionary gives, where only one kind of entry was put there"""
        if v[0] == 'lookup' and v[1][0] == 'obj':
            xs = s.heap.get((v[1], '#items'), frozenset())
            if len(xs) == 1:
                (k, x), = xs
                if k == v[2]:
                    return x
                if k is not None and k[0] == 'ix' and v[2][0] == 'ix' and k[1] == v[2][1]:
                    return subst(x, k[2], v[2][2])
                ts = tags(k) if k is not None else []
                if len(ts) == 1:
                    return subst(x, ts[0], ('at', v[1], v[2]))
        return v

    def binop(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                return ('c', {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y}[op](a[1], b[1]))
            except Exception:
                pass
        if op == 'Add' and a == ('c', 0):
            return b
        if op in ('Add', 'Sub') and b == ('c', 0):
            return a
        return ('bin', op, a, b)

    def sub(self, s, v, i):
        v = self.force(s, v)
        if v[0] == 'tup' and i[0] == 'c' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
            return v[1][i[1]]
        if i[0] == 'ix' and i[1] == v:
            return ('el', v, i[2])
        if v[0] == 'obj':
            q = s.heap.get((v, '#seq'), ())
            if i == ('c', -1) and q and q[-1][0] == 'one':
                return q[-1][1]
            return ('lookup', v, i, None)
        return ('sub', v, i)

    def attr(self, s, v, name):
        v = self.force(s, v)
        if (v, name) in s.heap:
            return s.heap[(v, name)]
        if v[0] == 'name':
            return ('name', v[1] + '.' + name)
        if v[0] == 'self' and (self.cls, name) in self.globals:
            return self.globals[(self.cls, name)]
        return ('attr', v, name)

    def ev(self, n, s):
        if isinstance(n, ast.Constant):
            return [(s, ('c', n.value))]
        if isinstance(n, ast.Name):
            if n.id in s.env:
                return [(s, s.env[n.id])]
            if n.id in self.names:
                return [(s, ('name', self.names[n.id]))]
            g = self.globals.get(n.id)
            if g is not None and isinstance(g, ast.AST):
                return [(s, v) for _, v in self.ev(g, s)]
            return [(s, ('name', n.id))]
        if isinstance(n, ast.Attribute):
            return [(t, self.attr(t, v, n.attr)) for t, v in self.ev(n.value, s)]
        if isinstance(n, ast.Subscript):
            out = []
            for t, v in self.ev(n.value, s):
                if v[0] == 'self' and '__getitem__' in self.classes.get(self.cls, {}):
                    for u, i in self.ev(n.slice, t):
                        out += self.inline(self.classes[self.cls]['__getitem__'], u, (v, i), {})
                    continue
                out += [(u, self.sub(u, v, i)) for u, i in self.ev(n.slice, t)]
            return out
        if isinstance(n, ast.Slice):
            xs = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
            return [(t, ('slice',) + vs) for t, vs in self.evs(xs, s)]
        if isinstance(n, (ast.Tuple, ast.Set)) and not any(isinstance(e, ast.Starred) for e in n.elts):
            return [(t, ('tup', vs)) for t, vs in self.evs(n.elts, s)]
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for t, vs in self.evs(n.elts, s):
                o = ('obj', 'list', (n.lineno, n.col_offset) + tuple(self.stack[1:]))
                h = dict(t.heap)
                h[(o, '#items')] = frozenset((None, v) for v in vs)
                h[(o, '#seq')] = tuple(('one', v) for v in vs)
                t = St(t.env, h, t.facts).touch(o)
                out.append((t, o))
            return out
        if isinstance(n, ast.Dict):
            out = []
            for t, ks in self.evs(n.keys, s) if None not in n.keys else [(s, None)]:
                for u, vs in self.evs(n.values, t):
                    o = ('obj', 'dict', (n.lineno, n.col_offset) + tuple(self.stack[1:]))
                    h = dict(u.heap)
                    h[(o, '#items')] = frozenset(zip(ks or [('?',)] * len(vs), vs))
                    out.append((St(u.env, h, u.facts).touch(o), o))
            return out
        if isinstance(n, ast.BinOp):
            out = []
            for t, (a, b) in self.evs([n.left, n.right], s):
                op = type(n.op).__name__
                if op == 'Mult' and a[0] == 'obj' and a[1] == 'list':
                    h = dict(t.heap)
                    h[(a, '#times')] = b
                    h[(a, '#seq')] = (('?',),)
                    out.append((St(t.env, h, t.facts), a))
                else:
                    out.append((t, self.binop(op, a, b)))
            return out
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                return [(t, ('c', not v[1]) if v[0] == 'c' else ('not', v)) for t, v in self.ev(n.operand, s)]
            if isinstance(n.op, ast.USub):
                return [(t, ('c', -v[1]) if v[0] == 'c' else ('bin', 'Sub', ('c', 0), v)) for t, v in self.ev(n.operand, s)]
            return [(t, ('un', type(n.op).__name__, v)) for t, v in self.ev(n.operand, s)]
        if isinstance(n, ast.BoolOp):
            stop = isinstance(n.op, ast.Or)
            live, out = [(s, None)], []
            for k, e in enumerate(n.values):
                nxt = []
                for t, _ in live:
                    for u, v in self.ev(e, t):
                        if k == len(n.values) - 1:
                            out.append((u, v))
                            continue
                        y = self.assume(u, v, stop)
                        if y is not None:
                            out.append((y, v))
                        y = self.assume(u, v, not stop)
                        if y is not None:
                            nxt.append((y, v))
                live = nxt
            return out
        if isinstance(n, ast.IfExp):
            out = []
            for t, v in self.ev(n.test, s):
                for pol, e in ((True, n.body), (False, n.orelse)):
                    u = self.assume(t, v, pol)
                    if u is not None:
                        out += self.ev(e, u)
            return out
        if isinstance(n, ast.Compare):
            if len(n.ops) == 1:
                return [(t, ('cmp', type(n.ops[0]).__name__, a, b)) for t, (a, b) in self.evs([n.left, n.comparators[0]], s)]
            parts, l = [], n.left
            for op, r in zip(n.ops, n.comparators):
                parts.append(ast.copy_location(ast.Compare(left=l, ops=[op], comparators=[r]), n))
                l = r
            return self.ev(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), n), s)
        if isinstance(n, ast.NamedExpr):
            return [(t.put(n.target.id, v), v) for t, v in self.ev(n.value, s)]
        if isinstance(n, ast.Lambda):
            return [(s, ('fn', n))]
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(n, s)
        if isinstance(n, ast.JoinedStr):
            return [(s, ('call', ('name', 'format'), (), (), (n.lineno, n.col_offset)))]
        if isinstance(n, ast.Call):
            out = []
            for t, f in self.ev(n.func, s):
                for u, a in self.evs(n.args, t):
                    for w, kv in self.evs([k.value for k in n.keywords], u):
                        out += self.call(n, w, f, a, {k.arg: v for k, v in zip(n.keywords, kv)})
            return out
        if isinstance(n, ast.Starred):
            return self.ev(n.value, s)
        return [(s, ('?', type(n).__name__, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)))]

    def comp(self, n, s):
        tag = ('t', n.lineno, n.col_offset) + tuple(self.stack[1:])
        sts, its, whole = [s], [], True
        for k, g in enumerate(n.generators):
            tg = tag if k == 0 else tag + (k,)
            nxt = []
            for t in sts:
                for u, it in self.ev(g.iter, t):
                    if it[0] == 'self':
                        it = self.iterated(u, it)
                    its.append(it)
                    for v in self.elements(u, it, tg):
                        for w in self.assign(g.target, v, u):
                            ws = [w]
                            for c in g.ifs:
                                whole = False
                                ws = [y for x in ws for z, cv in self.ev(c, x) for y in [self.assume(z, cv, True)] if y is not None]
                            nxt += ws
            sts = nxt
        if isinstance(n, ast.DictComp):
            items = frozenset(kv for t in sts for _, kv in self.evs([n.key, n.value], t))
            o = ('obj', 'dict', (n.lineno, n.col_offset) + tuple(self.stack[1:]))
            h = dict(s.heap)
            h[(o, '#items')] = items
            return [(St(s.env, h, s.facts).touch(o), o)]
        vals = frozenset(v for t in sts for _, v in self.ev(n.elt, t))
        if len(n.generators) == 1 and len(set(its)) == 1:
            return [(s, ('map', its[0], tag, vals, whole))]
        o = ('obj', 'list', (n.lineno, n.col_offset) + tuple(self.stack[1:]))
        h = dict(s.heap)
        h[(o, '#items')] = frozenset((None, v) for v in vals)
        h[(o, '#seq')] = (('?',),)
        return [(St(s.env, h, s.facts).touch(o), o)]

    def bind(self, f, args, kw):
        ps = [p.arg for p in f.args.args]
        env = dict(zip(ps, args))
        if any(a[0] == 'star' for a in args if isinstance(a, tuple)) or None in kw:
            return None
        env.update({k: v for k, v in kw.items()})
        for p, d in zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults):
            if p not in env:
                env[p] = self.ev(d, St({}, {}, frozenset()))[0][1]
        for p, d in zip(f.args.kwonlyargs, f.args.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.ev(d, St({}, {}, frozenset()))[0][1]
        return env

    def inline(self, f, s, args, kw, outer=None):
        env = self.bind(f, args, kw)
        if env is None or self.depth > 8:
            return [(s, ('call', ('name', getattr(f, 'name', 'lambda')), tuple(args), tuple(sorted(kw.items())), (f.lineno,)))]
        self.depth += 1
        self.stack.append('%s:%d' % (getattr(f, 'name', 'lambda'), f.lineno))
        start = St(dict(outer or {}, **env), s.heap, s.facts)
        if isinstance(f, ast.Lambda):
            rs = self.ev(f.body, start)
        else:
            o = self.block(f.body, [start])
            rs = [(t, NONE) for t in o.next] + o.ret
            self.raised = o.exc
        self.stack.pop()
        self.depth -= 1
        return [(St(s.env, t.heap, t.facts), v) for t, v in rs]

    def call(self, n, s, f, a, kw):
        if self.hook:
            r = self.hook(self, s, f, a, kw, n)
            if isinstance(r, list):
                return r
            if isinstance(r, St):
                s = r
        if f[0] == 'attr':
            o, m = self.force(s, f[1]), f[2]
            if o[0] == 'self' and m in self.classes.get(self.cls, {}):
                return self.inline(self.classes[self.cls][m], s, (o,) + a, kw)
            if o[0] == 'obj' and o[1] == 'list':
                if m == 'append':
                    return [(self.extend(s, o, a[0], True), NONE)]
                if m == 'extend':
                    return [(self.extend(s, o, a[0]), NONE)]
                if m in ('insert', 'remove', 'pop', 'sort', 'reverse', 'clear'):
                    return [(self.store(s, o, None, a[-1]) if m == 'insert' else s.touch(o).set(o, '#seq', (('?',),)), ('call', f, a, (), (n.lineno, n.col_offset)))]
            if o[0] == 'obj' and o[1] == 'dict':
                if m == 'get' and a:
                    return [(s, ('lookup', o, a[0], a[1] if len(a) > 1 else NONE))]
                if m == 'setdefault' and len(a) == 2:
                    return [(self.store(s, o, a[0], a[1]), ('lookup', o, a[0], None))]
                if m in ('update', 'pop', 'clear', 'popitem'):
                    return [(self.store(s, o, ('?',), a[0] if a else NONE) if m == 'update' else s.touch(o), ('call', f, a, (), (n.lineno, n.col_offset)))]
            f = ('attr', o, m)
        if f[0] == 'fn':
            return self.inline(f[1], s, a, kw, s.env)
        if f[0] == 'name':
            if f[1] in self.functions:
                return self.inline(self.functions[f[1]], s, a, kw)
            if f[1] in self.classes and '__init__' in self.classes[f[1]]:
                e = self.bind(self.classes[f[1]]['__init__'], (('self',),) + a, kw)
                if e is not None:
                    return [(s, ('new', f[1], tuple(sorted((k, v) for k, v in e.items() if v != ('self',)))))]
            if f[1] == 'dict' and not a:
                o = ('obj', 'dict', (n.lineno, n.col_offset) + tuple(self.stack[1:]))
                h = dict(s.heap)
                h[(o, '#items')] = frozenset((('c', k), v) for k, v in kw.items())
                return [(St(s.env, h, s.facts).touch(o), o)]
            if f[1] == 'list' and not a:
                o = ('obj', 'list', (n.lineno, n.col_offset) + tuple(self.stack[1:]))
                h = dict(s.heap)
                h[(o, '#items')] = frozenset()
                h[(o, '#seq')] = ()
                return [(St(s.env, h, s.facts).touch(o), o)]
            if f[1] == 'len' and a and a[0][0] == 'self' and '__len__' in self.classes.get(self.cls, {}):
                return self.inline(self.classes[self.cls]['__len__'], s, a, kw)
            if f[1] in ('list', 'tuple') and len(a) == 1 and a[0][0] == 'map':
                return [(s, a[0])]
        short = f[1].split('.')[-1] if f[0] == 'name' else f[2] if f[0] == 'attr' else ''
        site = () if short in PURE else (n.lineno, n.col_offset) + tuple(self.stack[1:])
        return [(s, ('call', f, a, tuple(sorted(kw.items(), key=str)), site))]
