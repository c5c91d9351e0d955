"""P28 threshold results combine every contribution once, with its own weight"""
TECHNIQUE = 'abstract interpretation in an algebraic domain (sums, products and powers over scalars and group elements, loops solved as recurrences, sorting recognised as permutation); the normal form of each result is matched with its defining formula'
NOTE = 'for every number of contributions, every index and every value; group operations taken by their algebraic meaning; inverting the Vandermonde matrix is not looked into'
import build, ir
from ring import *

FNS = ('toprf_Evaluate', 'toprf_3hashtdh', 'toprf_thresholdmult', 'toprf_thresholdcombine', 'dkg_finish', 'dkg_reconstruct', 'toprf_mpc_mul_start', 'toprf_mpc_mul_finish')


def each(R, X, rule, out, want, what):
    """on every success the 32 bytes at out are the wanted expression"""
    for w, g, env in X.successes():
        got = X.value(env, out, g)
        R.ok(X.same(got, want, g), rule, w, '%s: %s; it is %s' % (X.fn.f.name, what, shown(got)[:300]))


def tagged(R, X, out, want):
    for ins, g, env in X.ring.ends:
        v = X.returned(ins, g, env)
        c = Eq(v)
        if c is False or c is not True and contradict(g, frozenset(literals(c))):
            continue
        got = X.arrays.name(X.ring.byte(env, out))
        a = got.single()
        if a is not None and a[0] == 'trunc':
            got = poly(a[2])
        R.ok(got == X.arrays.name(want), 'index', X.fn.where(ins), '%s: the result does not carry the index it belongs to' % X.fn.f.name)


def check(R):
    text, R.sources = build.library()
    mod = ir.parse_module(text)
    R.rule('weighted', 'the result is the sum over all contributions of the Lagrange coefficient of the contribution\'s index over all given indices times its value')
    R.rule('sum', 'the result is the sum of the values of all contributions')
    R.rule('partial', 'a partial evaluation is the formula of its operation applied to the whole share value and the given element')
    R.rule('product', 'the multiplication shares have the product of both operands as constant term')
    R.rule('index', 'a partial result carries the index of the share it was made with')
    for f in FNS:
        if f not in mod.fns or not mod.fns[f].blocks:
            R.broken('%s is gone' % f)
            return
    X = {f: Result(Fn(mod, f)) for f in FNS}
    A = lambda f, i: X[f].fn.arg(i)
    S = lambda f, a: X[f].src(a)

    f = 'toprf_thresholdmult'
    n, rs = A(f, 0), A(f, 1)
    lam = lambda r, n: lambda u: lagrange(cell(r + u * 33), n, lambda j: cell(r + j * 33))
    each(R, X[f], 'weighted', A(f, 2), total(n, lambda u: times(lam(rs, n)(u), S(f, rs + u * 33 + 1))),
         'the result is not the sum of all responses, each weighted for its own index')
    f = 'dkg_reconstruct'
    n2, r2 = A(f, 0), A(f, 1)
    each(R, X[f], 'weighted', A(f, 2), total(n2, lambda u: times(lam(r2, n2)(u), S(f, r2 + u * 33 + 1))),
         'the result is not the sum of all shares, each weighted for its own index')
    f = 'toprf_thresholdcombine'
    r3 = A(f, 1)
    each(R, X[f], 'sum', A(f, 2), total(A(f, 0), lambda u: S(f, r3 + u * 33 + 1)), 'the result is not the sum of all responses')
    f = 'dkg_finish'
    r4 = A(f, 1)
    each(R, X[f], 'sum', A(f, 3) + 1, total(A(f, 0), lambda u: S(f, r4 + u * 33 + 1)), 'the share is not the sum of all dealt shares')
    f = 'toprf_Evaluate'
    ix = A(f, 3)
    want = times(times(S(f, A(f, 0) + 1), lagrange(A(f, 2), A(f, 4), lambda j: cell(ix + j))), S(f, A(f, 1)))
    each(R, X[f], 'partial', A(f, 5) + 1, want, 'the result is not share times coefficient of the own index times blinded element')
    tagged(R, X[f], A(f, 5), A(f, 2))
    f = 'toprf_3hashtdh'
    for w, g, env in X[f].successes():
        got = X[f].value(env, A(f, 5) + 1, g)
        rest = minus(got, times(S(f, A(f, 0) + 1), S(f, A(f, 2))))
        ok = rest is not None and len(rest) == 1 and rest[0][1] == 1 and len(rest[0][0]) == 2 and all(e == ONE for a, e in rest[0][0])
        if ok:
            fs = [a for a, e in rest[0][0]]
            ok = S(f, A(f, 1) + 1)[0][0][0][0] in fs and any(a[0] == 'o' and a[1] == 'crypto_core_ristretto255_from_hash' for a in fs)
        R.ok(ok, 'partial', w, '%s: the result is not key share times element plus zero share times hash; it is %s' % (f, shown(got)[:300]))
    tagged(R, X[f], A(f, 5), cell(A(f, 0)))
    f = 'toprf_mpc_mul_finish'
    sh = A(f, 3)
    for w, g, env in X[f].successes():
        got = X[f].value(env, A(f, 4) + 1, g)
        loc = {a for a in parts(got) if a[0] == 'v' and a[1][0] == 'alloca'}
        bases = {(a[1], a[3]) for a in loc}
        ok = False
        if len(bases) == 1:
            (b, ver), = bases
            ok = X[f].same(got, total(A(f, 0), lambda u: times(S(f, sh + u * 33 + 1), atom(('v', b, u * 32, ver)))), g)
        R.ok(ok, 'sum', w, '%s: the result is not the sum of all dealers\' shares, each times its own element of the first row; it is %s' % (f, shown(got)[:300]))
    tagged(R, X[f], A(f, 4), A(f, 2))
    f = 'toprf_mpc_mul_start'
    prod = times(S(f, A(f, 0) + 1), S(f, A(f, 1) + 1))
    fn = X[f].fn
    ob = fn.base(A(f, 4))[0]
    found = 0
    for h, alts in X[f].ring.latch.items():
        k = fn.ivinfo[h]['k']
        if any(h in fn.loops[g] and g != h for g in fn.loops):
            continue
        for g, env in alts:
            for key, v in env.items():
                if key[0] == ob and isinstance(key[1], Poly) and has(key[1], k):
                    found += 1
                    rest = minus(X[f].tidy(v), prod)
                    ok = rest is not None and all(any(a[0] == 'S' for a, e in m) and not parts(((m, c),)) & parts(prod) for m, c in rest)
                    R.ok(ok, 'product', fn.where(fn.f.blocks[h].instrs[-1]), '%s: the shares do not have the product of the operands as constant term' % f)
    R.floor('product', 1)
    R.floor('weighted', 2)
    R.floor('sum', 3)
    R.floor('partial', 2)
    R.floor('index', 3)
