"""P27 only shares matching their dealer's commitments are accepted"""
TECHNIQUE = 'abstract interpretation in an algebraic domain (sums, products and powers over scalars and group elements, loops solved as recurrences); the compared values are put in normal form and matched with the verification equation on every accepting path'
NOTE = 'for every threshold, group size, index, share and commitment; group operations taken by their algebraic meaning; the coefficient arrays of a dealer are followed as whole arrays'
import build, ir
from ring import *


def equation(X, vals, commitments, share, self_, t):
    """the two compared values are g*share and the sum of commitments[k] * self^k over k < t"""
    if vals is None or vals[0] is None or vals[1] is None:
        return False
    want = minus(times(atom(('G',)), X.src(share)), total(t, lambda k: times(power(num(self_), k), X.src(commitments + k * 32))))
    got = minus(*vals)
    return X.same(got, want) or X.same(got, scale(want, -1))


def accepted(g, env):
    """operands of the comparisons found equal on this path"""
    out = []
    for key, v in env.items():
        if key[0] == 'cmp' and key[1] is not None:
            same = Not(Eq(poly(key[1]))) if key[1][1] == 'sodium_is_zero' else Eq(poly(key[1]))
            if contradict(g, frozenset(literals(Not(same)))):
                out.append(v)
    return out


def own(g, i, self_):
    c = Eq(i, self_)
    return c is True or c is not False and contradict(g, frozenset({(c[1], not c[2])}))


def single(R, mod):
    fn = Fn(mod, 'dkg_verify_commitment')
    X = Result(fn)
    n, t, self_, i, com, share = [fn.arg(x) for x in range(6)]
    for w, g, env in X.successes():
        if own(g, i, self_):
            R.saw('own', w)
            continue
        R.ok(any(equation(X, v, com, share + 1, self_, t) for v in accepted(g, env)), 'equation', w,
             'dkg_verify_commitment: a share is accepted without its image having been found equal to the commitments evaluated at the receiver\'s index')
    for w, g, env in X.failures():
        R.ok(not any(equation(X, v, com, share + 1, self_, t) for v in accepted(g, env)), 'rejects', w,
             'dkg_verify_commitment: a share that satisfies the equation is refused')
    R.floor('equation', 1)


def group(R, mod):
    fn = Fn(mod, 'dkg_verify_commitments')
    X = Result(fn)
    n, t, self_, com, shares, fails = [fn.arg(x) for x in range(6)]
    fb = fn.base(fails)[0]
    seen = 0
    for h, alts in X.ring.latch.items():
        if any(h in fn.loops[g] and g != h for g in fn.loops):
            continue
        if not any(i.op == 'call' and i.callee in COMPARE for b in fn.loops[h] for i in fn.f.blocks[b].instrs):
            continue
        seen += 1
        k = fn.ivinfo[h]['k']
        w = fn.where(fn.f.blocks[h].instrs[-1])
        ex = [(b, s.name) for b in fn.loops[h] for s in fn.succ(fn.f.blocks[b]) if s.name not in fn.loops[h]]
        Bs = {X.ring.first(h, None, b, s) + (0 if b == h else 1) if X.ring.first(h, None, b, s) is not None else None for b, s in ex}
        R.ok(Bs == {n}, 'everyone', w, 'dkg_verify_commitments: not every participant is examined')
        good = 0
        for g, env in alts:
            rs = env.get((fb, '*'), ())
            reported = bool(rs) and not (rs[-1][2] and rs[-1][2][0] == 'arr')
            vs = accepted(g, env)
            hit = None
            for j in (poly(k), n - 1 - poly(k)):
                if any(equation(X, v, com + t * j * 32, shares + j * 33 + 1, self_, t) for v in vs):
                    hit = j
            me = any(own(g, j + 1, self_) for j in (poly(k), n - 1 - poly(k)))
            if reported:
                R.ok(hit is None, 'rejects', w, 'dkg_verify_commitments: a share that satisfies the equation is reported')
            else:
                R.ok(hit is not None or me, 'equation', w,
                     'dkg_verify_commitments: a participant is passed over without its share having satisfied the equation for its own commitments')
                good += hit is not None
        R.ok(good > 0, 'equation', w, 'dkg_verify_commitments: no share is found to satisfy the equation')
    if not seen:
        R.broken('dkg_verify_commitments: no loop comparing shares')


def dealer(R, mod):
    """the published commitments are those of the coefficients the shares are computed from"""
    fn = Fn(mod, 'dkg_start')
    X = Result(fn)
    n, t, com, shares = [fn.arg(x) for x in range(4)]
    cb = fn.base(com)[0]
    sb = fn.base(shares)[0]
    made = {}
    coefs = set()
    for h, alts in X.ring.latch.items():
        k = fn.ivinfo[h]['k']
        ex = [(b, s.name) for b in fn.loops[h] for s in fn.succ(fn.f.blocks[b]) if s.name not in fn.loops[h]]
        Bs = {X.ring.first(h, None, b, s) + (0 if b == h else 1) if X.ring.first(h, None, b, s) is not None else None for b, s in ex}
        outer = not any(h in fn.loops[g] and g != h for g in fn.loops)
        for g, env in alts:
            for key, v in env.items():
                if key[0] == cb and isinstance(key[1], Poly) and has(key[1], k):
                    made.setdefault(h, []).append((k, Bs, key[1] - fn.base(com)[1], v, env))
                if key[0] == sb and isinstance(key[1], Poly) and has(key[1], k) and outer:
                    v = X.tidy(v)
                    coefs |= {a for a in parts(v) if a[0] == 'v' and a[1][0] == 'alloca'} if v is not None else {None}
    coefs = {(a[1], a[3]) if a else None for a in coefs}
    w0 = 'dkg_start'
    if not R.ok(len(coefs) == 1 and None not in coefs, 'dealt', w0, 'dkg_start: the shares are not computed from one array of coefficients'):
        return
    (ab, ver), = coefs
    R.ok(len(made) == 1, 'dealt', w0, 'dkg_start: the commitments are not computed in one pass')
    for h, xs in made.items():
        w = fn.where(fn.f.blocks[h].instrs[-1])
        for k, Bs, off, v, env in xs:
            ok = False
            for j in (poly(k), t - 1 - poly(k)):
                if off != j * 32:
                    continue
                # the coefficient of this place: set in the same pass, or taken from the finished array
                a = env.get((ab, j * 32))
                if a is not None and ver == ('out', h):
                    ok = v == times(atom(('G',)), a)
                elif a is None:
                    ok = v == times(atom(('G',)), atom(('v', ab, j * 32, ver)))
            R.ok(ok and Bs == {t}, 'dealt', w, 'dkg_start: a published commitment is not the image of the coefficient used for the shares')


def check(R):
    text, R.sources = build.library()
    mod = ir.parse_module(text)
    R.rule('equation', 'acceptance happens only where all 32 bytes of g*share were compared equal with the sum over k < threshold of commitment k times index^k')
    R.rule('own', 'the participant\'s own share is not examined')
    R.rule('rejects', 'no share that satisfies the equation is refused or reported')
    R.rule('everyone', 'the group check goes through all n participants')
    R.rule('dealt', 'commitment k is g times the very coefficient k of the polynomial the shares are values of, for all k < threshold')
    for f in ('dkg_verify_commitment', 'dkg_verify_commitments', 'dkg_start'):
        if f not in mod.fns or not mod.fns[f].blocks:
            R.broken('%s is gone' % f)
            return
    single(R, mod)
    group(R, mod)
    dealer(R, mod)
