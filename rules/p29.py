"""P29 blinding hides and unblinding restores exactly"""
TECHNIQUE = 'abstract interpretation in an algebraic domain; the normal form of each result is matched with its defining formula on every successful path'
NOTE = 'for every input, key and blinding factor; group operations and hashing to the group taken by their algebraic meaning'
import build, ir
from ring import *
from p28 import each
import p36

HASH = 'crypto_core_ristretto255_from_hash'


def check(R):
    text, R.sources = build.library()
    mod = ir.parse_module(text)
    R.rule('blind', 'the blinded element is the random scalar handed back times the hash of the input to the group')
    R.rule('evaluate', 'evaluation is the key times the given element')
    R.rule('unblind', 'unblinding multiplies the given element by the inverse of the given scalar')
    for f in ('oprf_Blind', 'oprf_Evaluate', 'oprf_Unblind'):
        if f not in mod.fns or not mod.fns[f].blocks:
            R.broken('%s is gone' % f)
            return
    X = Result(Fn(mod, 'oprf_Blind'))
    a = X.fn.arg
    for w, g, env in X.successes():
        r, b = X.value(env, a(2), g), X.value(env, a(3), g)
        ok = r is not None and b is not None and len(r) == 1 and len(r[0][0]) == 1 and r[0][0][0][0][:2] == ('o', 'crypto_core_ristretto255_scalar_random')
        if ok:
            q = times(b, power(r, -1))
            ok = q is not None and len(q) == 1 and q[0][1] == 1 and len(q[0][0]) == 1 and q[0][0][0][1] == ONE and q[0][0][0][0][:2] == ('o', HASH)
        R.ok(ok, 'blind', w, 'oprf_Blind: the blinded element is not the returned scalar times the hash of the input; they are %s and %s' % (shown(b)[:200], shown(r)[:100]))
    # what is hashed is the whole input
    p36.hashed(R, 'blind', p36.module(())[0], 'oprf_Blind', None)
    X = Result(Fn(mod, 'oprf_Evaluate'))
    a = X.fn.arg
    each(R, X, 'evaluate', a(2), times(X.src(a(0)), X.src(a(1))), 'the result is not key times element')
    X = Result(Fn(mod, 'oprf_Unblind'))
    a = X.fn.arg
    each(R, X, 'unblind', a(2), times(power(X.src(a(0)), -1), X.src(a(1))), 'the result is not the element times the inverse of the blinding factor')
    for r in ('blind', 'evaluate', 'unblind'):
        R.floor(r, 1)
