"""P25 threshold operations reject inconsistent inputs"""
TECHNIQUE = 'must-fact dataflow: linear bounds and equalities entailed at every successful return, allocation and write, over inlined LLVM IR'
NOTE = 'all paths of the combining, multiplication and evaluation functions, for all argument values'
from common import *
import build, ir, flow
from flow import Fn, Facts

COMBINE = {'toprf_thresholdmult': 0, 'toprf_thresholdcombine': 0}       # parameter with the number of responses
MULT = ('toprf_mpc_mul_start', 0, 1, 2, 3, 4)                           # operands, peers, threshold, shares
RESULT = {'toprf_Evaluate': (5, (('arg', 2), ('first', 0))), 'toprf_3hashtdh': (5, (('first', 0),))}


def ge0(st, p):
    return prove(st.facts, p) or st.holds(Ge(p)) is True


def check(R):
    R.rule('count', 'combining succeeds only for at most 255 responses')
    R.rule('first', 'nothing is allocated or written in the size of the responses before their number is known to be at most 255')
    R.rule('operands', 'a shared multiplication succeeds, or writes a share, only with equal indices, a threshold above zero and at least threshold peers')
    R.rule('index', 'successful evaluation leaves the index of the share in the result')
    text, R.sources = build.library()
    mod = ir.parse_module(text)
    for name in list(COMBINE) + [MULT[0]] + list(RESULT):
        if name not in mod.fns:
            R.broken('%s is gone' % name)
            return
    for name, i in COMBINE.items():
        combine(R, mod, name, i)
    multiply(R, mod)
    for name, (out, may) in RESULT.items():
        result(R, mod, name, out, may)
    R.floor('count', 2)
    R.floor('operands', 4)
    R.floor('index', 2)


def combine(R, mod, name, i):
    fn = Fn(mod, name)
    n = fn.arg(i)
    F = Facts(fn)
    ok = F.success_states()
    if not ok:
        R.broken('%s never succeeds' % name)
    for r, st in ok:
        R.ok(ge0(st, poly(255) - n), 'count', fn.where(r), '%s succeeds for more than 255 responses' % name)
    for b in fn.rpo:
        for ins in b.instrs:
            what = None
            if ins.op == 'alloca':
                z = fn.val(ins.ops[0], ('i', 64))
                if z.const() is None:
                    what = 'allocates %s elements' % show(z)
            elif ins.op in ('store', 'call'):
                if ins.op == 'call' and ins.callee in ('malloc', 'calloc', 'realloc', 'alloca'):
                    if any(p.const() is None for p in fn.args(ins)):
                        what = 'allocates memory'
                for w in fn.writes_of(ins):
                    if w[2] is None or w[1] is None:
                        continue
                    off = fn.base(w[2])[1]
                    if off is not None and (off.const() is None or w[3] is None or w[3].const() is None):
                        what = 'writes at offset %s' % show(off)
            if what:
                for st in F.states_before(ins):
                    R.ok(ge0(st, poly(255) - n), 'first', fn.where(ins), '%s %s, possibly for more than 255 responses' % (name, what))


def multiply(R, mod):
    name, a, b, peers, t, shares = MULT
    fn = Fn(mod, name)
    F = Facts(fn)

    def good(st, where, text):
        x, y = [poly(('ld', fn.arg(k), 1, None, False)) for k in (a, b)]
        eq = any(same(fn, l, x, y) for l, pol in st.facts if pol)
        R.ok(eq, 'operands', where, '%s %s for operands with different indices' % (name, text))
        R.ok(ge0(st, fn.arg(t) - 1), 'operands', where, '%s %s for a threshold of zero' % (name, text))
        R.ok(ge0(st, fn.arg(peers) - fn.arg(t)), 'operands', where, '%s %s for fewer peers than the threshold' % (name, text))
    ok = F.success_states()
    if not ok:
        R.broken('%s never succeeds' % name)
    for r, st in ok:
        good(st, fn.where(r), 'succeeds')
    n = 0
    for blk in fn.rpo:
        for ins in blk.instrs:
            if ins.op in ('store', 'call') and any(w[1] is not None and poly(w[1]) == fn.arg(shares) for w in fn.writes_of(ins)):
                n += 1
                for st in F.states_before(ins):
                    good(st, fn.where(ins), 'writes shares')
    if not n:
        R.broken('%s writes no shares' % name)


def same(fn, l, x, y):
    """the literal says that the index bytes of both operands agree"""
    if l[0] != 'eq':
        return False
    p = l[1]
    c = p.single()
    if c and c[0] == 'fn' and c[1] in flow.MEMCMP:
        ps = [z for z in c[2:] if isinstance(z, Poly)] or [z for z in c[2] if isinstance(z, Poly)]
        return len(ps) == 3 and {ps[0], ps[1]} == {fn.arg(MULT[1]), fn.arg(MULT[2])} and (ps[2].const() or 0) >= 1
    lds = [z for z in p.atoms() if z[0] == 'ld' and z[2] == 1]
    return len(lds) == 2 and len(p.t) == 2 and sorted(c for _, c in p.t) == [-1, 1] and {z[1] for z in lds} == {list(x.atoms())[0][1], list(y.atoms())[0][1]}


def result(R, mod, name, out, may):
    fn = Fn(mod, name)
    F = Facts(fn, watch(fn, {'index': (fn.arg(out), 1)}))
    ok = F.success_states()
    if not ok:
        R.broken('%s never succeeds' % name)
    for r, st in ok:
        v = value(st, 'index')
        good = False
        for k, i in may:
            if k == 'arg':
                good = good or v is not None and eq0(st, v - fn.arg(i))
            elif v is not None:
                s = v.single()
                good = good or s is not None and s[0] == 'ld' and s[1] == fn.arg(i) and s[2] == 1
        R.ok(good, 'index', fn.where(r), '%s succeeds with %s as index of the result' % (name, show(v) if v is not None else 'nothing'))
