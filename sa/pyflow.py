"""Abstract interpretation of the Python bindings.

Values are polynomials (numbers) or tuples (everything else).  A state maps variables to values and
carries must-facts about them; states are joined where control flow meets, loops are entered with
their variables unknown, and functions of the module are inlined at their calls.  Nothing is run.
"""
import ast, os
import build, flow
from flow import State, assume
from sym import *
import sym

NONE = ('none',)
LENMAX = 2 ** 31 - 1               # no Python object is taken to be longer
SCALARS = {'c_ubyte': 1, 'c_uint8': 1, 'c_byte': 1, 'c_int8': 1, 'c_char': 1, 'c_bool': 1, 'c_uint16': 2, 'c_ushort': 2, 'c_int16': 2, 'c_short': 2, 'c_uint32': 4, 'c_int': 4, 'c_uint': 4,
           'c_int32': 4, 'c_uint64': 8, 'c_int64': 8, 'c_size_t': 8, 'c_ssize_t': 8, 'c_long': 8, 'c_ulong': 8, 'c_longlong': 8, 'c_ulonglong': 8, 'c_void_p': 8, 'c_char_p': 8,
           'c_wchar_p': 8, 'c_double': 8, 'c_float': 4}
SIGNED = {'c_byte', 'c_int8', 'c_int16', 'c_short', 'c_int', 'c_int32', 'c_int64', 'c_long', 'c_longlong', 'c_ssize_t'}
POINTERS = {'c_void_p', 'c_char_p', 'c_wchar_p'}


def lenatom(v):
    a = ('len', v)
    RANGES.setdefault(a, (0, LENMAX))
    return poly(a)


def num(v):
    if isinstance(v, Poly):
        return v
    if v[0] == 'bool':
        return poly(('b2i', v[1]))
    if v[0] == 'cval' and v[3] is not None:
        return poly(v)
    return poly(v)


def unwrap(p):
    """the value a polynomial consisting of one opaque value stands for"""
    if isinstance(p, Poly):
        s = p.single()
        return s if s is not None and p.coef(s) == 1 and p.c0() == 0 else p
    return p


class S:
    """abstract state"""
    def __init__(self, env, st, pending=frozenset(), ver=(), tags=frozenset()):
        self.env, self.st, self.pending, self.ver, self.tags = env, st, pending, dict(ver), tags

    def copy(self):
        return S(dict(self.env), self.st, self.pending, self.ver, self.tags)

    def assume(self, c):
        st = assume(self.st, c)
        if st is None:
            return None
        s = self.copy()
        s.st = st
        return s

    def tag(self, *t):
        s = self.copy()
        s.tags = s.tags | set(t)
        return s

    def holds(self, c):
        h = self.st.holds(c)
        if h is None and isinstance(c, tuple) and c[0] == 'lit' and c[1][0] in ('ge', 'eq') and c[2]:
            p = c[1][1]
            if c[1][0] == 'ge':
                h = True if prove(self.st.facts, p) else False if prove(self.st.facts, -p - 1) else None
            elif prove(self.st.facts, p) and prove(self.st.facts, -p):
                h = True
        return h


SETTLED = []                       # tells whether a native result needs no further attention in a state


def open_calls(s):
    return frozenset(x for x in s.pending if not any(f(x[0], s) for f in SETTLED))


PHIS = {}                          # values joined where control flow meets


def phi(key, k, *vs):
    r = ('phi', key, k)
    PHIS.setdefault(r, set()).update(v for v in vs if v != r)
    return r


def join(states, key):
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    r = states[0].copy()
    r.pending = open_calls(r)
    for o in states[1:]:
        env = {}
        for k in r.env:
            if k in o.env:
                env[k] = r.env[k] if r.env[k] == o.env[k] else phi(key, k, r.env[k], o.env[k])
        r.env = env
        r.st = r.st.meet(o.st)
        r.pending |= open_calls(o)
        r.tags &= o.tags
        for k, v in o.ver.items():
            if r.ver.get(k, 0) != v:
                r.ver[k] = max(v, r.ver.get(k, 0)) + 1
    return r


class Flow:
    """what executing statements leads to"""
    def __init__(self):
        self.returns, self.raises, self.breaks, self.continues = [], [], [], []


class Native:
    """one call of a native function"""
    def __init__(self, lib, name, args, kw, state, node, stack, uid):
        self.lib, self.name, self.args, self.kw, self.state, self.node, self.stack, self.uid = lib, name, args, kw, state, node, stack, uid


class Module:
    def __init__(self, path, consts, depth=8):
        self.path = path
        self.rel = os.path.relpath(path, build.REPO)
        try:
            self.tree = ast.parse(open(path).read())
        except (SyntaxError, OSError) as e:
            raise build.Broken('cannot parse %s: %s' % (path, e))
        self.consts = consts              # values of the crypto library's constants
        self.fns, self.classes, self.structs = {}, {}, {}
        self.restype, self.argtypes = {}, {}
        self.libs = {}
        self.events, self.derefs, self.returned = [], [], []
        self.depth = depth
        self.stack = []
        self.entry = None
        self.globals = {}
        self.record = False
        s = S({}, State())
        fl = Flow()
        s = self.body(self.tree.body, s, fl, top=True)
        if s is None:
            raise build.Broken('%s: the module body does not complete' % path)
        self.globals = s.env
        self.record = True

    # ---------------------------------------------------------------- entry points
    def roots(self):
        called = set()
        for f in self.fns.values():
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    called.add(n.func.id)
        return [f for nm, f in self.fns.items() if not nm.startswith('_') or nm not in called]

    def analyse(self, f):
        """runs the function abstractly; [(state, value)] of its normal ends"""
        self.entry = f.name
        self.events, self.derefs = [], []
        self.filled, self.changed = {}, set()
        PHIS.clear()
        env = {}
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            env[x.arg] = ('par', x.arg)
        if a.vararg:
            env[a.vararg.arg] = ('par', a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('par', a.kwarg.arg)
        fl = Flow()
        self.stack = [f.name]
        s = self.body(f.body, S(env, State()), fl)
        r = list(fl.returns)
        if s is not None:
            r.append((s, NONE, f))
        self.raised = fl.raises
        return r

    # ---------------------------------------------------------------- statements
    def body(self, stmts, s, fl, top=False):
        for x in stmts:
            if s is None:
                return None
            s = self.stmt(x, s, fl, top)
        return s

    def stmt(self, n, s, fl, top=False):
        self.fl = fl
        k = type(n).__name__
        if k == 'FunctionDef':
            if top:
                self.fns[n.name] = n
            s = s.copy()
            s.env[n.name] = ('pyfn', n.name) if top else ('closure', id(n))
            self.closures = getattr(self, 'closures', {})
            self.closures[id(n)] = n
            return s
        if k == 'ClassDef':
            return self.classdef(n, s)
        if k in ('Import', 'ImportFrom'):
            s = s.copy()
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if k == 'Import':
                    s.env[nm] = ('mod', a.asname and a.name or a.name.split('.')[0])
                elif n.module == 'ctypes':
                    s.env[nm] = self.attr(('mod', 'ctypes'), a.name, s, n)
                else:
                    s.env[nm] = self.attr(('mod', n.module or ''), a.name, s, n)
            return s
        if k == 'Expr':
            _, s = self.ev(n.value, s)
            return s
        if k in ('Assign', 'AnnAssign'):
            if n.value is None:
                return s
            v, s = self.ev(n.value, s)
            if s is None:
                return None
            for t in (n.targets if k == 'Assign' else [n.target]):
                s = self.store(t, v, s)
            return s
        if k == 'AugAssign':
            v, s = self.ev(ast.copy_location(ast.BinOp(left=as_load(n.target), op=n.op, right=n.value), n), s)
            return s and self.store(n.target, v, s)
        if k == 'Return':
            v, s = self.ev(n.value, s) if n.value is not None else (NONE, s)
            if s is not None:
                fl.returns.append((s, v, n))
            return None
        if k == 'Raise':
            v = NONE
            if n.exc is not None:
                v, s = self.ev(n.exc, s)
            if s is not None:
                fl.raises.append((s, v, n))
            return None
        if k == 'If':
            t, f = self.cond(n.test, s)
            t = t and self.body(n.body, t, fl)
            f = f and self.body(n.orelse, f, fl)
            return join([t, f], ('if', n.lineno, len(self.stack)))
        if k == 'Assert':
            t, f = self.cond(n.test, s)
            if f is not None:
                fl.raises.append((f, ('exc', 'AssertionError'), n))
            return t
        if k in ('For', 'While'):
            return self.loop(n, s, fl)
        if k == 'Try':
            return self.tryit(n, s, fl)
        if k == 'With':
            for i in n.items:
                v, s = self.ev(i.context_expr, s)
                if s is None:
                    return None
                if i.optional_vars is not None:
                    s = self.store(i.optional_vars, v, s)
            return self.body(n.body, s, fl)
        if k == 'Break':
            fl.breaks.append(s)
            return None
        if k == 'Continue':
            fl.continues.append(s)
            return None
        if k == 'Delete':
            s = s.copy()
            for t in n.targets:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
            return s
        return s

    def assigned(self, nodes):
        out = set()
        for b in nodes:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
        return out

    def loop(self, n, s, fl):
        key = ('loop', n.lineno, len(self.stack))
        xs = None
        if isinstance(n, ast.For):
            xs, s = self.ev(n.iter, s)
            if s is None:
                return None
        head = s.copy()
        for v in self.assigned([n]):
            if v in head.env:
                head.env[v] = phi(key, v, head.env[v])
        inner = Flow()
        if isinstance(n, ast.For):
            el, b = self.element(xs, head, key)
            b = b and self.store(n.target, el, b)
            out = head
        else:
            b, out = self.cond(n.test, head)
        e = b and self.body(n.body, b, inner)
        fl.returns += inner.returns
        fl.raises += inner.raises
        ends = [x for x in [e] + inner.continues if x is not None]
        for x in ends:
            for v in x.env:
                if ('phi', key, v) in PHIS:
                    phi(key, v, x.env[v])
        if out is not None:
            out = out.copy()
            for x in ends:
                out.pending |= open_calls(x)
                for kk, v in x.ver.items():
                    if out.ver.get(kk, 0) < v:
                        out.ver[kk] = v + 1
            if isinstance(n, ast.For) and not inner.breaks and xs is not None:
                # what every iteration ends with holds of every element
                el = ('elem', xs, key)
                common = None
                for x in ends:
                    fs = {f for f in x.st.facts if el in all_atoms(f)} | {t for t in x.tags if mentions(t, el)}
                    common = fs if common is None else common & fs
                star = ('elem', xs, '*')
                out.tags = out.tags | {('all', xs, rename(f, el, star)) for f in common or ()}
                for f in common or ():
                    self.ranges(rename(f, el, star))
        res = [out] if out is None or not n.orelse else [self.body(n.orelse, out, fl)]
        return join(res + inner.breaks, key + ('exit',))

    def ranges(self, f):
        for a in all_atoms(f):
            if a[0] == 'len':
                RANGES.setdefault(a, (0, LENMAX))

    def element(self, xs, s, key):
        """value of one element while going through xs"""
        if not isinstance(xs, Poly):
            if xs[0] == 'range':
                i = ('idx', xs, key)
                b = s.assume(Ge(poly(i) - num(xs[1])))
                b = b and b.assume(Ge(num(xs[2]) - poly(i) - 1))
                return poly(i), b
            if xs[0] == 'enumerate':
                e, b = self.element(xs[1], s, key)
                return ('tuple', (('opaque', 'index', key), e)), b
            if xs[0] == 'zip':
                return ('tuple', tuple(('elem', x, key) for x in xs[1])), s
        el = ('elem', xs, key)
        b = s.copy()
        star = ('elem', xs, '*')
        for t in s.tags:
            if t[0] == 'all' and t[1] == xs:
                f = rename(t[2], star, el)
                self.ranges(f)
                if isinstance(f, tuple) and f and f[0] == 'isinst':
                    b = b.tag(f)
                elif isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], bool):
                    b = b.assume(('lit', f[0], f[1])) or b
        return el, b

    def tryit(self, n, s, fl):
        inner = Flow()
        pts = []
        cur = s
        for x in n.body:
            if cur is None:
                break
            pts.append(cur)
            cur = self.stmt(x, cur, inner)
        if cur is not None:
            pts.append(cur)
            cur = self.body(n.orelse, cur, inner) if n.orelse else cur
        fl.returns += inner.returns
        fl.breaks += inner.breaks
        fl.continues += inner.continues
        # states at raises inside (with what was called until then) and before each statement
        caught = [x[0] for x in inner.raises]
        outs = [cur]
        if not n.handlers:
            fl.raises += inner.raises
        wide = False
        for h in n.handlers:
            names = [] if h.type is None else [getattr(t, 'id', getattr(t, 'attr', '')) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            mine = []
            for st, v, node in inner.raises:
                nm = v[1] if isinstance(v, tuple) and v[0] == 'exc' else None
                if not names or nm is None or catches(names, nm):
                    mine.append(st)
            if not names or set(names) & {'Exception', 'BaseException'}:
                wide = True
            o = join(mine + pts, ('try', h.lineno, len(self.stack)))
            if o is not None:
                # calls made by the time an exception arises count as made
                for st in mine:
                    o.pending |= open_calls(st)
                if h.name:
                    o.env[h.name] = ('opaque', 'exception', h.lineno)
                outs.append(self.body(h.body, o, fl))
        if n.handlers:
            for st, v, node in inner.raises:
                nm = v[1] if isinstance(v, tuple) and v[0] == 'exc' else None
                if not wide:
                    fl.raises.append((st, v, node))
        r = join(outs, ('try', n.lineno, len(self.stack)))
        if n.finalbody and r is not None:
            r = self.body(n.finalbody, r, fl)
        elif n.finalbody:
            # an ending in the finally part replaces the exception
            for st, v, node in inner.raises:
                f2 = Flow()
                self.body(n.finalbody, st, f2)
                fl.returns += f2.returns
        return r

    def store(self, t, v, s):
        if isinstance(t, ast.Name):
            s = s.copy()
            s.env[t.id] = v
            return s
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                y = v[1][i] if isinstance(v, tuple) and v[0] in ('tuple', 'list') and i < len(v[1]) else ('sub', v, poly(i))
                s = self.store(x, y, s)
            return s
        if isinstance(t, ast.Attribute):
            b, s = self.ev(t.value, s)
            if s is None:
                return None
            if isinstance(b, tuple) and b[0] == 'native':
                if t.attr == 'restype':
                    self.restype[b[2]] = v
                elif t.attr == 'argtypes':
                    self.argtypes[b[2]] = v
            return s
        if isinstance(t, ast.Subscript):
            b, s = self.ev(t.value, s)
            if s is None:
                return None
            if isinstance(t.slice, ast.Slice):
                if isinstance(b, tuple) and b[0] == 'arr' and t.slice.lower is None and t.slice.upper is None:
                    # only a value of the same length can be assigned
                    s = s.assume(Eq(self.length(b, s) - self.length(v, s)))
                    self.fill(b, v, s)
                elif isinstance(b, tuple) and b[0] in ('arr', 'buf'):
                    self.fill(b, ('opaque', 'part', self.fresh()), s)
                return s
            _, s = self.ev(t.slice, s)
            if isinstance(b, tuple) and b[0] in ('arr', 'buf'):
                self.fill(b, ('opaque', 'part', self.fresh()), s)
            return s
        return s

    def fill(self, b, v, s):
        """something is written to a buffer, before or after native code had it"""
        if self.record:
            self.filled.setdefault(b, set()).add(v)
            if s is not None and s.ver.get(b, 0):
                self.changed.add(b)

    def classdef(self, n, s):
        s = s.copy()
        base = [self.ev(b, s)[0] for b in n.bases]
        if ('ctypes', 'Structure') in base or any(isinstance(b, tuple) and b[:2] == ('cty', 'Structure') for b in base):
            for x in n.body:
                if isinstance(x, ast.Assign) and getattr(x.targets[0], 'id', '') == '_fields_':
                    v, _ = self.ev(x.value, s)
                    fs = []
                    if isinstance(v, tuple) and v[0] in ('list', 'tuple'):
                        for e in v[1]:
                            fs.append((e[1][0], e[1][1]))
                    pack = next((self.ev(y.value, s)[0] for y in n.body if isinstance(y, ast.Assign) and getattr(y.targets[0], 'id', '') == '_pack_'), None)
                    self.structs[n.name] = (fs, pack, n)
            s.env[n.name] = ('structty', n.name)
        else:
            self.classes[n.name] = n
            s.env[n.name] = ('pyclass', n.name)
        return s

    # ---------------------------------------------------------------- conditions
    def cond(self, n, s):
        """states in which the expression is true and false"""
        if isinstance(n, ast.BoolOp):
            done = []
            cur = s
            for x in n.values:
                if cur is None:
                    break
                t, f = self.cond(x, cur)
                if isinstance(n.op, ast.And):
                    done.append(f)
                    cur = t
                else:
                    done.append(t)
                    cur = f
            other = join(done, ('bool', n.lineno, n.col_offset))
            return (cur, other) if isinstance(n.op, ast.And) else (other, cur)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, s)
            return f, t
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            # a < b < c
            vals, cur = [], s
            for x in [n.left] + n.comparators:
                v, cur = self.ev(x, cur)
                if cur is None:
                    return None, None
                vals.append(v)
            out, done = cur, []
            for i, op in enumerate(n.ops):
                c = self.compare(vals[i], op, vals[i + 1], cur)
                t, f = self.split(c, out) if out is not None else (None, None)
                done.append(f)
                out = t
            return out, join(done, ('cmp', n.lineno, n.col_offset))
        v, s = self.ev(n, s)
        if s is None:
            return None, None
        return self.split(v, s)

    def split(self, v, s):
        if isinstance(v, Poly):
            return s.assume(Not(Eq(v))), s.assume(Eq(v))
        k = v[0]
        if k == 'bool':
            return s.assume(v[1]), s.assume(Not(v[1]))
        if k == 'const':
            return (s, None) if v[1] else (None, s)
        if k == 'none':
            return None, s
        if k == 'not':
            t, f = self.split(v[1], s)
            return f, t
        if k == 'andv' or k == 'orv':
            done, cur = [], s
            for x in v[1]:
                if cur is None:
                    break
                t, f = self.split(x, cur)
                done.append(f if k == 'andv' else t)
                cur = t if k == 'andv' else f
            o = join(done, ('boolv', v))
            return (cur, o) if k == 'andv' else (o, cur)
        if k == 'isinst':
            return s.tag(v), s
        if k == 'allv':
            return s.tag(*[('all', v[1], f) for f in v[2]]), s
        if k == 'anyv':
            return s, s.tag(*[('all', v[1], f) for f in v[2]])
        if k == 'isnone':
            x = v[1]
            if x == NONE:
                return s, None
            if x[0] == 'res':
                return s.assume(Eq(poly(x))), s.assume(Not(Eq(poly(x))))
            return s, s
        if k == 'res':
            return s.assume(Not(Eq(poly(v)))), s.assume(Eq(poly(v)))
        if k in ('buf', 'arr', 'native', 'pyfn', 'structty', 'mem'):
            return s, s
        n = self.length(v, s)
        if k in ('par', 'bytesof', 'join', 'raw', 'list', 'tuple', 'bstr', 'str', 'elem'):
            f = s.assume(Eq(n)) if k != 'par' else s
            return s, f
        return s, s

    def compare(self, a, op, b, s):
        k = type(op).__name__
        if k in ('Is', 'IsNot') or NONE in (a, b):
            x = b if a == NONE else a if b == NONE else None
            if x is None or isinstance(x, Poly):
                return ('opaque', 'is', self.fresh())
            r = ('isnone', x)
            return r if k in ('Is', 'Eq') else ('not', r)
        if k in ('In', 'NotIn'):
            return ('opaque', 'in', self.fresh())
        for x in (a, b):
            if not isinstance(x, Poly) and x[0] == 'res' and self.reskind(x) == 'pointer':
                return ('opaque', 'never', self.fresh())       # a null pointer arrives as None, which no number equals
            if not isinstance(x, Poly) and x[0] in ('str', 'bstr', 'slice', 'list', 'tuple', 'const'):
                return ('opaque', 'cmp', self.fresh())
        p, q = num(a), num(b)
        c = {'Eq': lambda: Eq(p - q), 'NotEq': lambda: Not(Eq(p - q)), 'Lt': lambda: Ge(q - p - 1), 'LtE': lambda: Ge(q - p), 'Gt': lambda: Ge(p - q - 1), 'GtE': lambda: Ge(p - q)}[k]()
        return ('bool', c)

    def fresh(self):
        self.uid = getattr(self, 'uid', 0) + 1
        return self.uid

    # ---------------------------------------------------------------- expressions
    def ev(self, n, s):
        if s is None:
            return NONE, None
        return getattr(self, 'ev_' + type(n).__name__, self.ev_other)(n, s)

    def ev_other(self, n, s):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                _, s = self.ev(x, s)
                if s is None:
                    return NONE, None
        return ('opaque', n.lineno, n.col_offset, len(self.stack)), s

    def ev_Constant(self, n, s):
        v = n.value
        if v is None:
            return NONE, s
        if isinstance(v, bool):
            return ('const', v), s
        if isinstance(v, int):
            return poly(v), s
        if isinstance(v, bytes):
            return ('bstr', v), s
        if isinstance(v, str):
            return ('str', v), s
        return ('opaque', repr(v)), s

    def ev_Name(self, n, s):
        if n.id in s.env:
            return unwrap(s.env[n.id]), s
        if n.id in self.globals:
            return unwrap(self.globals[n.id]), s
        if n.id in self.fns:
            return ('pyfn', n.id), s
        return ('builtin', n.id), s

    def ev_Tuple(self, n, s, k='tuple'):
        vs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v, s = self.ev(x.value, s)
                vs += list(v[1]) if s is not None and not isinstance(v, Poly) and v[0] in ('tuple', 'list') else [('opaque', 'star', self.fresh()), v]
            else:
                v, s = self.ev(x, s)
                vs.append(v)
            if s is None:
                return NONE, None
        return (k, tuple(vs)), s

    def ev_List(self, n, s):
        return self.ev_Tuple(n, s, 'list')

    ev_Set = ev_List

    def ev_Dict(self, n, s):
        vs = []
        for x in n.values:
            v, s = self.ev(x, s)
            if s is None:
                return NONE, None
            vs.append(v)
        return ('dict', tuple(vs)), s

    def ev_BoolOp(self, n, s):
        t, f = self.cond(n, s)
        vs = []
        for x in n.values:
            v, s = self.ev(x, s)
            if s is None:
                return NONE, None
            vs.append(v)
        return ('andv' if isinstance(n.op, ast.And) else 'orv', tuple(vs)), s

    def ev_UnaryOp(self, n, s):
        v, s = self.ev(n.operand, s)
        if s is None:
            return NONE, None
        if isinstance(n.op, ast.Not):
            return ('not', v), s
        if isinstance(n.op, ast.USub):
            return -num(v), s
        return ('opaque', 'un', self.fresh()), s

    def ev_Compare(self, n, s):
        if len(n.ops) > 1:
            vs = []
            a, s = self.ev(n.left, s)
            for op, x in zip(n.ops, n.comparators):
                b, s = self.ev(x, s)
                if s is None:
                    return NONE, None
                vs.append(self.compare(a, op, b, s))
                a = b
            return ('andv', tuple(vs)), s
        a, s = self.ev(n.left, s)
        b, s = self.ev(n.comparators[0], s)
        if s is None:
            return NONE, None
        return self.compare(a, n.ops[0], b, s), s

    def ev_IfExp(self, n, s):
        t, f = self.cond(n.test, s)
        a, t = self.ev(n.body, t) if t else (None, None)
        b, f = self.ev(n.orelse, f) if f else (None, None)
        r = join([t, f], ('ifexp', n.lineno, n.col_offset, len(self.stack)))
        if t is None or f is None:
            return (a if t else b) or NONE, r
        return (a if a == b else phi(('ifexp', n.lineno, n.col_offset), len(self.stack), a, b)), r

    def ev_NamedExpr(self, n, s):
        v, s = self.ev(n.value, s)
        return v, s and self.store(n.target, v, s)

    def ev_JoinedStr(self, n, s):
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                _, s = self.ev(x.value, s)
        return ('opaque', 'fstr', n.lineno), s

    def ev_Lambda(self, n, s):
        return ('opaque', 'lambda', n.lineno), s

    def ev_BinOp(self, n, s):
        a, s = self.ev(n.left, s)
        b, s = self.ev(n.right, s)
        if s is None:
            return NONE, None
        k = type(n.op).__name__
        ta = None if isinstance(a, Poly) else a[0]
        tb = None if isinstance(b, Poly) else b[0]
        if k == 'Mult' and (ta in ('cty', 'structty', 'ptrty', 'arrty') or tb in ('cty', 'structty', 'ptrty', 'arrty')):
            t, c = (a, b) if ta in ('cty', 'structty', 'ptrty', 'arrty') else (b, a)
            return ('arrty', t, num(c)), s
        if k == 'Mult' and (ta in ('bstr', 'str') or tb in ('bstr', 'str')):
            x, c = (a, b) if ta in ('bstr', 'str') else (b, a)
            return ('rep', x, num(c)), s
        if k == 'Mult' and (ta == 'list' or tb == 'list'):
            return ('reps',) + ((a, num(b)) if ta == 'list' else (b, num(a))), s
        if k == 'Mod' and ta in ('str', 'opaque'):
            return ('opaque', 'fmt', self.fresh()), s
        BY = ('bstr', 'str', 'raw', 'join', 'cat', 'bytesof', 'slice', 'rep')
        if k == 'Add' and (ta in BY or tb in BY):
            return ('cat', a, b), s
        p, q = num(a), num(b)
        if k == 'Add':
            return p + q, s
        if k == 'Sub':
            return p - q, s
        if k == 'Mult':
            return p * q, s
        c, d = p.const(), q.const()
        if c is not None and d is not None:
            try:
                return poly({'LShift': lambda: c << d, 'RShift': lambda: c >> d, 'FloorDiv': lambda: c // d, 'Mod': lambda: c % d, 'Pow': lambda: c ** d, 'BitAnd': lambda: c & d, 'BitOr': lambda: c | d, 'BitXor': lambda: c ^ d}[k]()), s
            except (KeyError, ZeroDivisionError, ValueError):
                pass
        if k == 'Pow' and d is not None and 0 <= d <= 4:
            r = poly(1)
            for _ in range(d):
                r = r * p
            return r, s
        if k == 'Mod' and d:
            x = ('mod', p, d)
            RANGES.setdefault(x, (0, d - 1))
            return poly(x), s
        if k == 'BitAnd' and (c is not None or d is not None):
            m = d if d is not None else c
            if m is not None and m >= 0:
                x = ('band', p if d is not None else q, m)
                RANGES.setdefault(x, (0, m))
                return poly(x), s
        return ('opaque', 'bin', self.fresh()), s

    def ev_Subscript(self, n, s):
        b, s = self.ev(n.value, s)
        if s is None:
            return NONE, None
        if isinstance(n.slice, ast.Slice):
            lo, s = self.ev(n.slice.lower, s) if n.slice.lower is not None else (poly(0), s)
            hi, s = self.ev(n.slice.upper, s) if n.slice.upper is not None else (None, s)
            if s is None:
                return NONE, None
            self.deref(b, hi if hi is not None else NONE, True, s, n)
            if hi is None and lo == poly(0) or b[0] in ('nptr',):
                return ('slice', b, lo, hi), s
            return ('slice', b, lo, hi), s
        i, s = self.ev(n.slice, s)
        if s is None:
            return NONE, None
        self.deref(b, i, False, s, n)
        if isinstance(b, tuple) and b[0] in ('tuple', 'list') and isinstance(i, Poly) and i.const() is not None and -len(b[1]) <= i.const() < len(b[1]):
            return b[1][i.const()], s
        return ('sub', b, i), s

    def deref(self, b, i, sl, s, n):
        if self.record and not isinstance(b, Poly) and b[0] == 'nptr':
            self.derefs.append((b, i, sl, s, n))

    def ev_Attribute(self, n, s):
        b, s = self.ev(n.value, s)
        if s is None:
            return NONE, None
        return unwrap(self.attr(b, n.attr, s, n)), s

    def attr(self, b, name, s, n):
        if isinstance(b, Poly):
            return ('opaque', 'attr', self.fresh())
        if b[0] == 'mod':
            if b[1].split('.')[0] == 'ctypes':
                if name in SCALARS:
                    return ('cty', name)
                if name == 'Structure':
                    return ('cty', 'Structure')
                return ('ctypes', name)
            if b[1] == 'pysodium':
                if name in self.consts:
                    return poly(self.consts[name])
                return ('sodium', name)
            return ('mod', b[1] + '.' + name)
        if b[0] == 'lib':
            return ('native', b[1], name)
        if name == 'raw':
            return ('raw', b)
        if name == 'value' and b[0] in ('cval', 'nptr', 'sub', 'phi', 'mem'):
            v = s.ver.get(b, 0)
            if b[0] == 'cval' and v == 0 and b[2] is not None:
                return b[2]
            a = ('val', b, v)
            if b[0] == 'cval':
                w = SCALARS[b[3]]
                RANGES.setdefault(a, (-2 ** (8 * w - 1), 2 ** (8 * w - 1) - 1) if b[3] in SIGNED else (0, 2 ** (8 * w) - 1))
            return poly(a)
        if name == 'contents':
            return b[1] if b[0] == 'cast' else ('attr', b, name, 0)
        if b[0] in ('mem', 'sobj'):
            t = b[-1]
            fs = dict(self.structs[t[1]][0]) if t[0] == 'structty' and t[1] in self.structs else {}
            a = ('attr', b, name, s.ver.get(b, 0))
            ft = fs.get(name)
            if ft and ft[0] == 'cty' and ft[1] not in POINTERS:
                w = SCALARS[ft[1]]
                RANGES.setdefault(a, (-2 ** (8 * w - 1), 2 ** (8 * w - 1) - 1) if ft[1] in SIGNED else (0, 2 ** (8 * w) - 1))
            return a
        return ('attr', b, name, s.ver.get(b, 0))

    # ---------------------------------------------------------------- calls
    def ev_Call(self, n, s):
        f, s = self.ev(n.func, s)
        if s is None:
            return NONE, None
        if isinstance(f, tuple) and f == ('builtin', 'all') or isinstance(f, tuple) and f == ('builtin', 'any'):
            if len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1:
                return self.forall(n.args[0], f[1], s)
        args, kw = [], {}
        for x in n.args:
            if isinstance(x, ast.Starred):
                v, s = self.ev(x.value, s)
                if s is not None and not isinstance(v, Poly) and v[0] in ('tuple', 'list'):
                    args += list(v[1])
                else:
                    args.append(('star', v))
            else:
                v, s = self.ev(x, s)
                args.append(v)
            if s is None:
                return NONE, None
        for x in n.keywords:
            v, s = self.ev(x.value, s)
            if s is None:
                return NONE, None
            kw[x.arg] = v
        return self.call(f, args, kw, s, n)

    def forall(self, g, which, s):
        c = g.generators[0]
        xs, s = self.ev(c.iter, s)
        if s is None:
            return NONE, None
        b = s.copy()
        star = ('elem', xs, '*')
        b = self.store(c.target, star, b)
        t, f = self.cond(g.elt, b)
        x = t if which == 'all' else f
        if c.ifs or x is None:
            return ('opaque', which, self.fresh()), s
        fs = [y for y in x.st.facts - s.st.facts] + [y for y in x.tags - s.tags]
        return ('allv' if which == 'all' else 'anyv', xs, tuple(sorted(fs, key=repr))), s

    def ev_ListComp(self, n, s):
        key = ('comp', n.lineno, n.col_offset, len(self.stack))
        b = s.copy()
        src = None
        for c in n.generators:
            xs, b = self.ev(c.iter, b)
            if b is None:
                return NONE, None
            src = src if src is not None else xs
            el, b = self.element(xs, b, key)
            b = b and self.store(c.target, el, b)
            for i in c.ifs:
                b = b and self.cond(i, b)[0]
            if b is None:
                return ('opaque', 'comp', self.fresh()), s
        v, b = self.ev(n.elt, b)
        if b is None:
            return ('opaque', 'comp', self.fresh()), s
        s = s.copy()
        s.pending |= open_calls(b)
        s.ver.update(b.ver)
        if len(n.generators) == 1 and not n.generators[0].ifs and not isinstance(n, ast.GeneratorExp):
            el, star = ('elem', src, key), ('elem', src, '*')
            s.tags = s.tags | {('all', src, rename(t, el, star)) for t in b.tags if mentions(t, el)}
        if len(n.generators) == 1 and not n.generators[0].ifs and v == ('elem', src, key) and not isinstance(src, Poly) and src[0] in ('par', 'listof'):
            return src, s
        return ('map', src if len(n.generators) == 1 and not n.generators[0].ifs else None, v, key), s

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, s):
        v, s = self.ev_ListComp(n, s)
        return ('listof', v, 'set'), s

    def call(self, f, args, kw, s, n):
        k = f[0] if isinstance(f, tuple) else None
        u = (n.lineno, n.col_offset) + tuple(self.stack)
        if k == 'pyfn' and f[1] in self.fns:
            return self.inline(self.fns[f[1]], args, kw, s, n)
        if k == 'closure':
            return self.inline(self.closures[f[1]], args, kw, s, n, s.env)
        if k == 'native':
            return self.native(f, args, kw, s, n, u)
        if k == 'ctypes':
            return self.ctypes(f[1], args, kw, s, n, u)
        if k == 'cty':
            v = unwrap(num(args[0])) if args else None
            if args and f[1] in POINTERS:
                return ('pval', args[0], f[1]), s
            if args and not isinstance(v, Poly) and v[0] in ('buf', 'arr', 'none'):
                return ('cval', u, None, f[1]), s
            if args:
                w = SCALARS[f[1]]
                lo, hi = (-2 ** (8 * w - 1), 2 ** (8 * w - 1) - 1) if f[1] in SIGNED else (0, 2 ** (8 * w) - 1)
                p = num(v)
                if s.holds(Ge(p - lo)) is not True or s.holds(Ge(poly(hi) - p)) is not True:
                    t = ('trunc', 8 * w, p)
                    return ('cval', u, poly(t), f[1]), s
                return ('cval', u, p, f[1]), s
            return ('cval', u, None, f[1]), s
        if k == 'arrty':
            s = self.allocated(f[2], s)
            return ('arr', u, f[1], f[2]), s
        if k == 'structty':
            return ('sobj', u, f), s
        if k == 'ptrty':
            return ('nptr', u), s
        if k == 'attr' or k == 'meth':
            return self.method(f, args, kw, s, n, u)
        if k == 'mod':
            if f[1] == 'itertools.zip_longest' and len(args) == 1 and chunks(args[0]):
                return chunks(args[0]), s
            return ('opaque', 'call', self.fresh()), s
        if k == 'builtin':
            return self.builtin(f[1], args, kw, s, n)
        return ('opaque', 'call', self.fresh()), s

    def ctypes(self, name, args, kw, s, n, u):
        if name == 'create_string_buffer':
            init = args[0] if args else kw.get('init')
            size = args[1] if len(args) > 1 else kw.get('size')
            x = unwrap(init)
            isnum = isinstance(x, Poly) or x[0] in ('res', 'val', 'attr', 'phi') or x[0] == 'par' and ('isinst', x, 'bytes') not in s.tags and self.numeric(x)
            if size is not None and size != NONE:
                p = num(size)
                d = None
                if not isnum and s.holds(Eq(p - self.length(x, s))) is True:
                    d = p
            elif isnum:
                p, d = num(x), None
            else:
                d = self.length(x, s)
                p = d + 1
            s = self.allocated(p, s)
            return ('buf', u, p, d, None if isnum else x), s
        if name in ('byref', 'pointer', 'addressof'):
            if name == 'addressof':
                b = args[0]
                if b[0] == 'mem':
                    return b[1], s
                return poly(('addr', b)), s
            return ('byref', args[0], num(args[1]) if len(args) > 1 else poly(0)), s
        if name == 'sizeof':
            t = args[0]
            z = self.sizeof(t)
            if z is None:
                z = self.bytesize(t, s)
            return (z if z is not None else ('opaque', 'sizeof', self.fresh())), s
        if name == 'POINTER':
            return ('ptrty', args[0]), s
        if name == 'cast':
            p, t = args[0], args[1]
            tt = t[1] if isinstance(t, tuple) and t[0] == 'ptrty' else ('cty', 'c_ubyte')
            if isinstance(p, tuple) and p[0] == 'pval':
                return ('cast', ('mem', num(p[1]), tt)), s
            if isinstance(p, tuple) and p[0] in ('buf', 'arr'):
                return ('cast', ('mem', poly(('addr', p)), tt)), s
            return ('opaque', 'cast', self.fresh()), s
        if name == 'string_at':
            self.deref(args[0], args[1] if len(args) > 1 else NONE, True, s, n)
            return ('slice', args[0], poly(0), args[1] if len(args) > 1 else None), s
        return ('opaque', 'ctypes', self.fresh()), s

    def numeric(self, x):
        """a parameter used as a number somewhere in the function"""
        return True

    def allocated(self, p, s):
        """a buffer of this size exists, so the size is not negative"""
        s2 = s.assume(Ge(p))
        if s2 is None:
            return s
        for m, c in p.t:
            if len(p.t) == 1 and c > 0 and len(m) > 1:
                for a in set(m):
                    rest = list(m)
                    rest.remove(a)
                    if all(s2.holds(Ge(poly(x) - 1)) is True for x in rest):
                        s2 = s2.assume(Ge(poly(a))) or s2
            elif len(p.t) == 1 and c > 0 and len(m) == 1:
                s2 = s2.assume(Ge(poly(m[0]))) or s2
        return s2

    def method(self, f, args, kw, s, n, u):
        b, name = f[1], f[2]
        if name == 'LoadLibrary' or isinstance(b, tuple) and b == ('ctypes', 'cdll'):
            return ('lib', ''), s
        if name == 'join' and isinstance(b, tuple) and b[0] in ('bstr', 'str') and len(args) == 1:
            x = args[0]
            if b[1] in (b'', ''):
                if isinstance(x, tuple) and x[0] in ('tuple', 'list') and x[1]:
                    r = x[1][0]
                    for y in x[1][1:]:
                        r = ('cat', r, y)
                    return r, s
                return ('join', x), s
        if name in ('from_buffer', 'from_buffer_copy') and isinstance(b, tuple) and b[0] == 'arrty':
            self.fill(('arr', u, b[1], b[2]), args[0] if args else NONE, s)
            return ('arr', u, b[1], b[2]), s
        if name == 'encode':
            return ('opaque', 'encoded', u, b), s
        if name == 'append':
            return NONE, s
        return ('opaque', 'call', self.fresh()), s

    def builtin(self, name, args, kw, s, n):
        if name == 'len' and len(args) == 1:
            return unwrap(self.length(args[0], s)), s
        if name == 'isinstance' and len(args) == 2:
            t = args[1]
            if isinstance(t, tuple) and t[0] == 'builtin':
                return ('isinst', args[0], t[1]), s
            return ('opaque', 'isinstance', self.fresh()), s
        if name in ('bytes', 'bytearray'):
            if not args:
                return ('bstr', b''), s
            x = unwrap(args[0])
            if isinstance(x, Poly):
                return ('zeros', x), s
            if x[0] in ('buf', 'raw', 'join', 'slice', 'bstr', 'cat', 'rep'):
                return ('raw', x), s
            return ('bytesof', x), s
        if name in ('sorted', 'reversed', 'set', 'frozenset') and len(args) >= 1:
            return ('listof', args[0], name), s
        if name in ('list', 'tuple') and len(args) == 1:
            return ('listof', args[0]), s
        if name == 'iter' and len(args) == 1:
            return ('iterof', args[0]), s
        if name == 'range':
            a = [num(x) for x in args]
            return (('range', poly(0), a[0]) if len(a) == 1 else ('range',) + tuple(a[:3])), s
        if name == 'enumerate':
            return ('enumerate', args[0]), s
        if name == 'zip' and len(args) == 1 and chunks(args[0]):
            return chunks(args[0]), s
        if name == 'zip':
            return ('zip', tuple(args)), s
        if name == 'int' and len(args) == 1:
            return args[0], s
        if name == 'bool' and len(args) == 1:
            return ('not', ('not', args[0])), s
        if name == 'sum' and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'map':
            return ('opaque', 'sum', self.fresh()), s
        if name in EXC or name.endswith('Error') or name.endswith('Exception'):
            return ('exc', name), s
        return ('opaque', 'builtin', name, self.fresh()), s

    def inline(self, f, args, kw, s, n, env0=None):
        if len(self.stack) > self.depth or f.name in self.stack[1:] and self.stack.count(f.name) > 1:
            return ('opaque', 'deep', self.fresh()), s
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(env0 or {})
        for nm, v in zip(names, args):
            env[nm] = v
        rest = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = ('tuple', tuple(rest))
        for nm, v in kw.items():
            if nm is not None:
                env[nm] = v
        c = s.copy()
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for nm, d in defaults:
            if nm not in env:
                v, c = self.ev(d, c)
                env[nm] = v
        for x in a.args + a.kwonlyargs:
            env.setdefault(x.arg, ('opaque', 'missing', self.fresh()))
        saved = s.env
        c.env = env
        fl = Flow()
        outer = self.fl
        self.stack.append('%s:%d' % (f.name, n.lineno))
        e = self.body(f.body, c, fl)
        self.stack.pop()
        self.fl = outer
        outer.raises += fl.raises
        ends = list(fl.returns)
        if e is not None:
            ends.append((e, NONE, f))
        if not ends:
            return NONE, None
        vals = [v for _, v, _ in ends]
        st = []
        for x, v, _ in ends:
            x = x.copy()
            x.env = dict(saved)
            st.append(x)
        r = join(st, ('ret', n.lineno, n.col_offset, len(self.stack)))
        v = vals[0] if all(x == vals[0] for x in vals) else phi(('ret', n.lineno, n.col_offset), len(self.stack), *vals)
        if v == vals[0]:
            return v, r
        # handed back by one of several ends
        if any(not isinstance(x, Poly) and x[0] == 'res' for x in vals):
            v = ('phi', ('ret', n.lineno, n.col_offset), len(self.stack))
        return v, r

    def native(self, f, args, kw, s, n, u):
        r = ('res', u, f[2])
        RANGES.setdefault(r, (-2 ** 31, 2 ** 31 - 1) if self.reskind(r) == 'int' else (0, 2 ** 64 - 1))
        # the result of an earlier call at this place is gone
        st = State(frozenset(x for x in s.st.facts if r not in all_atoms(x)), s.st.must, s.st.may)
        s = s.copy()
        s.st = st
        if self.record:
            self.events.append(Native(f[1], f[2], args, kw, s, n, tuple(self.stack), r))
        s = s.copy()
        s.pending = s.pending | {(r, n.lineno)}
        for a in args:
            b = base(a)
            if b is not None:
                s.ver[b] = s.ver.get(b, 0) + 1
        hook = getattr(self, 'after', None)
        if hook and self.record:
            s = hook(self, f[2], args, r, s)
        return r, s

    def reskind(self, r):
        t = self.restype.get(r[2])
        if t is None:
            return 'int'
        if t == NONE:
            return 'none'
        if t[0] == 'ptrty' or t[0] == 'cty' and t[1] in POINTERS:
            return 'pointer'
        if t[0] == 'cty':
            return t[1]
        return 'other'

    # ---------------------------------------------------------------- sizes
    def length(self, v, s):
        """len(v)"""
        v = unwrap(v)
        if isinstance(v, Poly):
            return lenatom(('num', v))
        k = v[0]
        if k in ('bstr', 'str'):
            return poly(len(v[1]))
        if k in ('tuple', 'list'):
            return poly(len(v[1]))
        if k == 'buf':
            return v[2]
        if k == 'arr':
            return v[3]
        if k in ('raw', 'bytesof', 'listof'):
            return self.length(v[1], s)
        if k == 'zeros':
            return v[1]
        if k == 'rep':
            return self.length(v[1], s) * v[2]
        if k == 'cat':
            return self.length(v[1], s) + self.length(v[2], s)
        if k == 'map' and v[1] is not None:
            if not isinstance(v[1], Poly) and v[1][0] == 'range' and v[1][1] == poly(0):
                return num(v[1][2])
            return self.length(v[1], s)
        if k == 'slice':
            b, lo, hi = v[1], v[2], v[3]
            if hi is None and lo == poly(0):
                return self.length(b, s)
            if b[0] == 'nptr' and hi is not None and num(lo) == poly(0) and num(hi).single():
                RANGES[num(hi).single()] = (0, LENMAX)
                return num(hi)
        if k == 'join':
            xs = v[1]
            if isinstance(xs, tuple) and xs[0] == 'map':
                c = self.length(xs[2], s)
                if c.const() is not None:
                    return c * self.length(xs, s)
                return lenatom(v)
            star = lenatom(('elem', xs, '*'))
            for t in s.tags:
                if t[0] == 'all' and t[1] == xs and isinstance(t[2], tuple) and len(t[2]) == 2 and t[2][1] is True and t[2][0][0] == 'eq':
                    p = t[2][0][1]
                    a = star.single()
                    cf = p.coef(a)
                    if abs(cf) == 1:
                        z = -(p - star * cf) * cf
                        if z.const() is not None:
                            return z * self.length(xs, s)
        return lenatom(v)

    def sizeof(self, t):
        return self.layout(t)[0] if self.layout(t) else None

    def layout(self, t):
        """(size, alignment, {field: (offset, size)}) of a ctypes type"""
        if t[0] == 'cty' and t[1] in SCALARS:
            return poly(SCALARS[t[1]]), SCALARS[t[1]], {}
        if t[0] == 'ptrty':
            return poly(8), 8, {}
        if t[0] == 'arrty':
            l = self.layout(t[1])
            return (l[0] * t[2], l[1], {}) if l else None
        if t[0] == 'structty' and t[1] in self.structs:
            fs, pack, _ = self.structs[t[1]]
            pk = pack.const() if isinstance(pack, Poly) else None
            off, al, m = 0, 1, {}
            for nm, ft in fs:
                l = self.layout(ft)
                if l is None or l[0].const() is None:
                    return None
                a = min(l[1], pk) if pk else l[1]
                off = (off + a - 1) // a * a
                m[nm[1] if isinstance(nm, tuple) else nm] = (off, l[0].const())
                off += l[0].const()
                al = max(al, a)
            return poly((off + al - 1) // al * al), al, m
        return None

    def bytesize(self, v, s):
        """bytes that may be accessed through v when it is passed as a pointer; None if unknown"""
        v = unwrap(v)
        if isinstance(v, Poly):
            return None
        k = v[0]
        if k == 'buf':
            return v[2]
        if k == 'arr':
            z = self.sizeof(v[2])
            return z * v[3] if z is not None else None
        if k == 'byref':
            z = self.bytesize(v[1], s)
            return z - v[2] if z is not None else None
        if k == 'cval':
            return poly(SCALARS[v[3]])
        if k == 'nptr' or k == 'pval':
            return poly(8)
        if k == 'sobj':
            return self.sizeof(v[2])
        if k == 'mem':
            for a in v[1].atoms():
                if a[0] == 'addr' and v[1].coef(a) == 1:
                    z = self.bytesize(a[1], s)
                    off = v[1] - poly(a)
                    if z is not None:
                        return z - off
            return None
        if k in ('none', 'res'):
            return None
        return self.length(v, s)

    def datalen(self, v, s):
        v = unwrap(v)
        if not isinstance(v, Poly):
            if v[0] == 'buf' and v[3] is not None:
                return v[3]
            if v[0] == 'byref':
                return self.datalen(v[1], s)
        return self.bytesize(v, s)


EXC = {'ValueError', 'TypeError', 'RuntimeError', 'Exception', 'KeyError', 'IndexError', 'OSError', 'AssertionError', 'MemoryError', 'NotImplementedError', 'ArithmeticError', 'BaseException'}
SUPER = {'ValueError': {'Exception', 'BaseException'}, 'AssertionError': {'Exception', 'BaseException'}}


def chunks(a):
    """consecutive pieces of a sequence made by taking n times from one iterator"""
    if isinstance(a, tuple) and a[0] == 'star' and isinstance(a[1], tuple) and a[1][0] == 'reps' and len(a[1][1][1]) == 1:
        x = a[1][1][1][0]
        if isinstance(x, tuple) and x[0] == 'iterof':
            return ('chunks', x[1], a[1][2])


def catches(names, e):
    return e in names or bool(set(names) & {'Exception', 'BaseException'})


def as_load(n):
    x = ast.copy_location(ast.parse(ast.unparse(n), mode='eval').body, n)
    for y in ast.walk(x):
        if hasattr(y, 'lineno'):
            y.lineno, y.col_offset = n.lineno, n.col_offset
    return x


def base(v):
    """the object a pointer argument refers to"""
    while isinstance(v, tuple) and v[0] == 'byref':
        v = v[1]
    return v if isinstance(v, tuple) and v[0] in ('buf', 'arr', 'cval', 'nptr', 'sobj', 'mem', 'sub', 'par') else None


def mentions(x, a):
    if x == a:
        return True
    if isinstance(x, Poly):
        return any(mentions(y, a) for y in x.atoms())
    return isinstance(x, tuple) and any(mentions(y, a) for y in x)


def rename(x, a, b):
    """x with the value a replaced by b"""
    if x == a:
        return b
    if isinstance(x, Poly):
        for y in list(x.atoms()):
            z = rename(y, a, b)
            if z != y:
                x = x.subst(y, poly(z))
        return x
    if isinstance(x, tuple):
        return tuple(rename(y, a, b) for y in x)
    return x


def parts(v, acc=None):
    """all values a returned value keeps alive or hands over"""
    acc = acc if acc is not None else set()
    if isinstance(v, Poly):
        for a in v.atoms():
            parts(a, acc)
        return acc
    if v in acc:
        return acc
    acc.add(v)
    if v[0] in ('tuple', 'list', 'dict', 'andv', 'orv'):
        for x in v[1]:
            parts(x, acc)
    elif v[0] in ('not', 'raw', 'isnone', 'listof', 'byref', 'bytesof'):
        if isinstance(v[1], (tuple, Poly)):
            parts(v[1], acc)
    elif v[0] == 'bool':
        for a in all_atoms(v[1]):
            acc.add(a)
    elif v[0] == 'map':
        parts(v[2], acc)
    return acc
