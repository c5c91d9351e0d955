"""P22 Python bindings surface every native failure as an exception"""
TECHNIQUE = 'abstract interpretation of the Python syntax trees (inlined must-facts about native results and arguments) against the declarations in the C headers'
NOTE = 'every native call reachable from every binding function, for all native results and arguments; results are taken as declared by the headers'
import ast
from pyapi import *

BYTES = {'oprf_Evaluate': (0, 1), 'oprf_Unblind': (0, 1), 'oprf_Finalize': (2,), 'toprf_create_shares': (0,), 'toprf_Evaluate': (0, 1), 'toprf_3hashtdh': (0, 1, 2, 3)}


def check(R):
    R.rule('result', 'no binding function ends normally after a native call whose result was not found to be a success')
    R.rule('restype', 'native results are received with a type that keeps failures visible')
    R.rule('handed', 'results with a documented meaning are handed back')
    R.rule('argument', 'arguments documented as wrong never reach the native function')
    R.rule('raised', 'exceptions that are created are raised')
    B = Bindings()
    R.sources = B.sources
    for m in B.modules:
        for f in m.roots():
            function(R, B, m, f)
    import os
    for p in B.sources + [os.path.join(build.REPO, 'python', 'pyoprf', 'multiplexer.py')]:
        if not os.path.exists(p):
            continue
        rel = os.path.relpath(p, build.REPO)
        raised(R, rel, ast.parse(open(p).read()))
    R.floor('result', 20)
    R.floor('argument', 40)
    R.floor('raised', 40)


def function(R, B, m, f):
    ends = m.analyse(f)
    seen = set()
    for e in m.events:
        k = B.kind(e.name)
        if k is None:
            continue
        d = B.protos[e.name]
        w = B.where(m, e.stack[-1].split(':')[0], e.node)
        if (e.node.lineno, e.name) not in seen:
            seen.add((e.node.lineno, e.name))
            t = m.reskind(e.uid)
            if k == 'pointer':
                R.ok(t == 'pointer', 'restype', w, 'the pointer %s returns is received as a pointer (received as %s)' % (e.name, t))
            elif k == 'truth':
                R.ok(SCALARS.get(t) == 1, 'restype', w, 'the truth value %s returns is received as one byte (received as %s)' % (e.name, t))
            elif k == 'status':
                R.ok(t not in ('none', 'other', 'pointer', 'c_bool') or t == 'c_bool', 'restype', w, 'the status %s returns is received as a number' % e.name)
        arguments(R, B, m, e, d, w, f)
    for s, v, node in ends:
        have = parts(v)
        for r, line in s.pending:
            k = B.kind(r[2])
            w = '%s:%d %s' % (m.rel, line, f.name)
            if k == 'status':
                R.ok(s.holds(Eq(poly(r))) is True, 'result', w, '%s ends normally only if %s reported success' % (f.name, r[2]))
            elif k in ('pointer', 'truth'):
                R.ok(s.holds(Eq(poly(r))) is False, 'result', w, '%s ends normally only if %s did not report failure' % (f.name, r[2]))
            elif k == 'handed' or r[2] in HANDED:
                if f.name == r[2]:
                    R.ok(r in have, 'handed', w, 'the result of %s is handed back' % r[2])
        if isinstance(v, tuple) and v[0] == 'exc':
            R.bad('raised', '%s:%d %s' % (m.rel, node.lineno, f.name), 'an exception is returned instead of raised')


def raised(R, rel, tree):
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in EXC or isinstance(n, ast.Name) and n.id in EXC and not (isinstance(parents.get(n), ast.Call) and parents[n].func is n):
            p = parents.get(n)
            R.ok(not isinstance(p, ast.Expr), 'raised', '%s:%d' % (rel, n.lineno), 'the exception created here is not dropped')


def isbytes(m, s, v):
    v = unwrap(v)
    if isinstance(v, Poly):
        return False
    if v[0] in ('bstr', 'raw', 'join', 'cat', 'bytesof', 'rep', 'zeros', 'buf', 'arr'):
        return True
    return ('isinst', v, 'bytes') in s.tags


def source(v):
    """the list whose elements make up a buffer"""
    v = unwrap(v)
    while isinstance(v, tuple):
        if v[0] == 'buf' and v[4] is not None:
            v = v[4]
        elif v[0] in ('byref', 'raw', 'listof'):
            v = v[1]
        elif v[0] in ('join', 'bytesof'):
            return v[1]
        else:
            return None


def every(m, e, xs, mk):
    """the condition mk(element) holds of all elements of xs"""
    if xs is None:
        return False
    if isinstance(xs, tuple) and xs[0] in ('list', 'tuple'):
        return all(e.state.holds(mk(unwrap(x))) is True for x in xs[1])
    if isinstance(xs, tuple) and xs[0] in ('listof',):
        return every(m, e, xs[1], mk)
    el, b = m.element(xs, e.state, 'every')
    c = mk(el)
    if c is True or c is False:
        return c
    if c[0] == 'isinst':
        return c in b.tags
    return b.holds(c) is True


def arguments(R, B, m, e, d, w, f):
    s = e.state
    a = bind(e, d)
    if len(e.args) != len(d.params):
        R.bad('argument', w, '%s is called with %d arguments and takes %d' % (e.name, len(e.args), len(d.params)))
        return
    val = {}
    for p in d.params:
        if not p.ptr:
            val[p.name] = intval(m, e, a[p.name], cdecl.WIDTH.get(p.type[-1] if p.type else 'int', 32))[0]
    env = dict(val)

    def must(c, text):
        R.ok(s.holds(c) is True, 'argument', w, '%s: %s' % (e.name, text))
    # fixed-size inputs have exactly their size
    for p in d.params:
        if p.const and p.dims and not p.behind:
            ds = [cdecl.expr(x, env) for x in p.dims]
            if all(x is not None for x in ds) and p.type and p.type[-1] == 'uint8_t':
                need = poly(1)
                for x in ds:
                    need = need * x
                have = m.datalen(a[p.name], s)
                R.ok(have is not None and s.holds(Eq(have - need)) is True, 'argument', w, '%s: %s has exactly the size %s' % (e.name, p.name, show(need)))
    for i in BYTES.get(e.name, ()):
        R.ok(isbytes(m, s, e.args[i]), 'argument', w, '%s: %s is of type bytes' % (e.name, d.params[i].name))
    args = [unwrap(x) for x in e.args]
    n = e.name

    def v(i):
        return val[d.params[i].name]
    if n == 'coeff':
        must(Ge(v(0) - 1), 'the index is positive')
        must(Ge(poly(255) - v(0)), 'the index is less than 256')
        must(Ge(v(1) - 2), 'there are at least two peers')
        xs = source(args[2])
        R.ok(every(m, e, xs, lambda x: Ge(num(x) - 1)) and every(m, e, xs, lambda x: Ge(poly(255) - num(x))), 'argument', w, 'coeff: all peers are in 1..255')
    elif n in ('toprf_create_shares', 'dkg_start', 'dkg_verify_commitments'):
        i = 1 if n == 'toprf_create_shares' else 0
        must(Ge(poly(255) - v(i)), 'n is less than 256')
        must(Ge(v(i) - v(i + 1)), 't is at most n')
        must(Ge(v(i + 1) - 2), 't is at least 2')
        if n == 'dkg_verify_commitments':
            must(Ge(v(2) - 1), 'self is positive')
            must(Ge(v(0) - v(2)), 'self is at most n')
    elif n == 'dkg_finish':
        must(Ge(poly(255) - v(0)), 'n is less than 256')
        must(Ge(v(2) - 1), 'self is positive')
        must(Ge(v(0) - v(2)), 'self is at most n')
    elif n in ('toprf_thresholdmult', 'toprf_thresholdcombine'):
        must(Ge(v(0) - 2), 'there are at least two responses')
        xs = source(args[1])
        R.ok(every(m, e, xs, lambda x: Eq(m.length(x, s) - B.c['crypto_core_ristretto255_BYTES'] - 1)), 'argument', w, '%s: every response has the right size' % n)
        R.ok(every(m, e, xs, lambda x: True if isbytes(m, s, x) else ('isinst', x, 'bytes')), 'argument', w, '%s: every response is of type bytes' % n)
    elif n == 'dkg_reconstruct':
        xs = source(args[1])
        R.ok(every(m, e, xs, lambda x: Eq(m.length(x, s) - B.c['sizeof(TOPRF_Share)'])), 'argument', w, '%s: every response has the right size' % n)
    elif n == 'toprf_Evaluate':
        must(Ge(v(2) - 1), 'self is positive')
        must(Ge(poly(255) - v(2)), 'self is less than 256')
        xs = source(args[3])
        R.ok(every(m, e, xs, lambda x: Ge(num(x) - 1)) and every(m, e, xs, lambda x: Ge(poly(255) - num(x))), 'argument', w, 'toprf_Evaluate: all indexes are in 1..255')
    elif n in ('tpdkg_tp_next', 'tpdkg_peer_next'):
        have = m.datalen(args[1], s)
        r = num(args[2]).single() if isinstance(num(args[2]), Poly) else None
        must(Eq(have - v(2)), 'the message has the length announced')
        # the size asked for is the one of this step
        asked = [x for x, _ in s.pending if x[2] == n.replace('_next', '_input_size')]
        R.ok(any(s.holds(Eq(v(2) - poly(x))) is True for x in asked), 'argument', w, '%s: the length of the message is the one the step expects' % n)
    elif n == 'tpdkg_start_peer':
        have = m.datalen(args[3], s)
        must(Eq(have - B.c['tpdkg_msg0_SIZE']), 'the first message has its size')
