"""Symbolic values used for value numbering: integer polynomials over opaque atoms, and
boolean conditions over canonical comparisons.  Two program expressions that compute the same
quantity from the same atoms get the same representation, however they are written."""

import math

INF = float('inf')
_order = {}


def akey(a):
    """stable ordering key of an atom"""
    k = _order.get(a)
    if k is None:
        k = repr(a)
        _order[a] = k
    return k


class Poly:
    __slots__ = ('t', 'h', '_r', '_a')

    def __init__(self, terms):
        self.t = tuple(sorted(((m, c) for m, c in terms.items() if c != 0), key=lambda x: tuple(akey(a) for a in x[0])))
        self.h = hash(self.t)
        self._r = None
        self._a = None

    def aset(self):
        if self._a is None:
            self._a = frozenset(a for m, _ in self.t for a in m)
        return self._a

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.h == o.h and self.t == o.t)

    def d(self):
        return dict(self.t)

    def __add__(self, o):
        o = poly(o)
        d = self.d()
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-poly(o))

    def __mul__(self, o):
        o = poly(o)
        d = {}
        for m, c in self.t:
            for m2, c2 in o.t:
                k = tuple(sorted(m + m2, key=akey))
                d[k] = d.get(k, 0) + c * c2
        return Poly(d)

    def __radd__(self, o):
        return self + o

    def __rmul__(self, o):
        return self * o

    def const(self):
        """integer value if constant, else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def c0(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def atoms(self):
        s = []
        for m, _ in self.t:
            for a in m:
                if a not in s:
                    s.append(a)
        return s

    def single(self):
        """the atom, if the polynomial is exactly one atom"""
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None

    def coef(self, atom):
        return dict(self.t).get((atom,), 0)

    def subst(self, atom, val):
        if not any(atom in m for m, _ in self.t):
            return self
        val = poly(val)
        r = Poly({})
        for m, c in self.t:
            k = m.count(atom)
            rest = tuple(a for a in m if a != atom)
            term = Poly({rest: c})
            for _ in range(k):
                term = term * val
            r = r + term
        return r

    def __repr__(self):
        return show(self)


ZERO = Poly({})


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    return Poly({(x,): 1})


def all_atoms(x, acc=None):
    """all atoms occurring in x, recursively, including inside atoms"""
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a in m:
                all_atoms(a, acc)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str) and x not in acc:
            acc.add(x)
        for y in x[1:] if x and isinstance(x[0], str) else x:
            if isinstance(y, (tuple, Poly)):
                all_atoms(y, acc)
    return acc


# ---------------------------------------------------------------- pretty printing
NAMES = {}


def show(x):
    if isinstance(x, Poly):
        if not x.t:
            return '0'
        parts = []
        for m, c in x.t:
            if m == ():
                parts.append(str(c))
            else:
                s = '*'.join(show(a) for a in m)
                parts.append(s if c == 1 else ('-' + s if c == -1 else '%d*%s' % (c, s)))
        return '+'.join(parts).replace('+-', '-')
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        k = x[0]
        if x in NAMES:
            return NAMES[x]
        if k == 'arg':
            return x[2] if len(x) > 2 else 'arg%d' % x[1]
        if k == 'ld':
            return '[%s]%s' % (show(x[1]), '' if len(x) < 4 or x[3] is None else '~')
        if k == 'fn':
            return '%s(%s)' % (x[1], ', '.join(show(a) for a in x[2]))
        if k == 'call':
            return '%s()' % x[1]
        if k == 'glob':
            return '@' + x[1]
        if k in ('k', 'phi', 'alloca'):
            return '%s.%s' % (k, x[2] if k == 'phi' else x[-1])
        if k == 'eq':
            return '%s == 0' % show(x[1])
        if k == 'ge':
            return '%s >= 0' % show(x[1])
        if k == 'ult':
            return '%s <u %s' % (show(x[1]), show(x[2]))
        return '%s(%s)' % (k, ', '.join(show(a) for a in x[1:]))
    return repr(x)


# ---------------------------------------------------------------- conditions
# cond := True | False | ('lit', atom, polarity) | ('and', (..)) | ('or', (..))
# atom := ('eq', poly) | ('ge', poly) | ('ult', p, q) | ('bool', atom)
def Not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'lit':
        a, pol = c[1], c[2]
        if a[0] == 'ge':          # not (p >= 0)  <=>  -p-1 >= 0
            return Ge(-a[1] - 1)
        return ('lit', a, not pol)
    if c[0] == 'and':
        return Or(*[Not(x) for x in c[1]])
    return And(*[Not(x) for x in c[1]])


def And(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', tuple(out))


def Or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        for x in (c[1] if c[0] == 'or' else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else ('or', tuple(out))


def Eq(p, q=0):
    d = poly(p) - poly(q)
    c = d.const()
    if c is not None:
        return c == 0
    if d.t[-1][1] < 0:
        d = -d
    # 0/1-valued or two-valued atoms
    if len(d.t) <= 2:
        k = d.c0()
        rest = [(m, c) for m, c in d.t if m != ()]
        if len(rest) == 1 and len(rest[0][0]) == 1:
            a = rest[0][0][0]
            cf = rest[0][1]
            if a[0] == 'b2i' and abs(cf) == 1:
                v = -k * cf            # a == v
                return a[1] if v == 1 else (Not(a[1]) if v == 0 else False)
            if a[0] == 'ite' and abs(cf) == 1:
                v = -k * cf
                return Or(And(a[1], Eq(a[2], v)), And(Not(a[1]), Eq(a[3], v)))
            if a[0] == 'op' and a[1] == 'or' and k == 0:
                return And(*[Eq(x, 0) for x in a[2:]])
            if a[0] == 'op' and a[1] == 'xor' and k == 0 and len(a) == 4:
                return Eq(a[2], a[3])
            if a[0] in ('zext', 'sext') and k == 0:
                return Eq(a[2], 0)
            r = arange(a)
            if abs(cf) == 1:
                v = -k * cf
                if v < r[0] or v > r[1]:
                    return False
                if r == (-1, 0) and v == -1:
                    return Not(Eq(poly(a)))
    r = prange(d)
    if r[0] > 0 or r[1] < 0:
        return False
    if r[0] > -2 ** 62 and r[1] < 2 ** 62:
        g = math.gcd(*[c for m, c in d.t if m != ()])
        if g > 1:
            if d.c0() % g:
                return False
            return Eq(Poly({m: c // g for m, c in d.t}))
    return ('lit', ('eq', d), True)


def Ge(p, q=0):
    d = poly(p) - poly(q)
    r = prange(d)
    if r[0] >= 0:
        return True
    if r[1] < 0:
        return False
    # divide by content
    g = 0
    for m, c in d.t:
        if m != ():
            g = math.gcd(g, abs(c))
    if g > 1:
        dd = {m: c // g for m, c in d.t}      # floor for the constant is right for >= 0
        d = Poly(dd)
    # two-valued atoms
    if len([1 for m, c in d.t if m != ()]) == 1:
        m, c = [(m, c) for m, c in d.t if m != ()][0]
        if len(m) == 1 and m[0][0] in ('b2i',):
            k = d.c0()
            lo, hi = k >= 0, c + k >= 0       # value for 0 and 1
            cond = m[0][1]
            return And(Or(cond, lo), Or(Not(cond), hi))
        if len(m) == 1 and arange(m[0]) == (-1, 0):
            k = d.c0()
            z = Eq(poly(m[0]))
            return And(Or(Not(z), k >= 0), Or(z, k - c >= 0))
        if len(m) == 1 and m[0][0] == 'ite':
            a = m[0]
            k = d.c0()
            return Or(And(a[1], Ge(poly(a[2]) * c + k)), And(Not(a[1]), Ge(poly(a[3]) * c + k)))
    # x >= 1 over the non-negatives is x != 0
    if len(d.t) == 2 and d.c0() == -1:
        m, c = [(m, c) for m, c in d.t if m != ()][0]
        if c == 1 and prange(Poly({m: 1}))[0] >= 0:
            return Not(Eq(Poly({m: 1})))
    if len(d.t) == 1 and d.t[0][1] == -1 and prange(-d)[0] >= 0:
        return Eq(d)
    return ('lit', ('ge', d), True)


def Ult(p, q, w):
    """unsigned p < q at width w; mathematical when neither side can leave [0,2^w)"""
    p, q = poly(p), poly(q)
    rp, rq = prange(p), prange(q)
    top = 2 ** w
    if rp[0] >= 0 and rp[1] < top and rq[0] >= 0 and rq[1] < top:
        return Ge(q - p - 1)
    if q.const() == 0:
        return False
    return ('lit', ('ult', p, q), True)


def Slt(p, q, w):
    p, q = poly(p), poly(q)
    rp, rq = prange(p), prange(q)
    lo, hi = -2 ** (w - 1), 2 ** (w - 1)
    if rp[0] >= lo and rp[1] < hi and rq[0] >= lo and rq[1] < hi:
        return Ge(q - p - 1)
    return ('lit', ('slt', p, q), True)


# ---------------------------------------------------------------- ranges
RANGES = {}
LEMMAS = {}              # atom -> polynomials known to be >= 0
# library functions documented to return 0 (fine) or -1
ZERO_OR_MINUS1 = {'crypto_sign_verify_detached', 'sodium_memcmp', 'crypto_auth_verify', 'crypto_verify_32',
                  'crypto_scalarmult_ristretto255', 'crypto_scalarmult_ristretto255_base', 'crypto_core_ristretto255_add',
                  'crypto_core_ristretto255_sub', 'crypto_core_ristretto255_from_hash', 'sodium_mlock', 'sodium_munlock',
                  'crypto_core_ristretto255_scalar_invert', 'crypto_scalarmult', 'crypto_scalarmult_base'}


def arange(a):
    """type-based range of an atom"""
    r = RANGES.get(a)
    if r is not None:
        return r
    k = a[0]
    if (k == 'fn' or k == 'call') and a[1] in ZERO_OR_MINUS1:
        return (-1, 0)
    if k == 'ld':
        if isinstance(a[2], int):
            return (0, 2 ** (8 * a[2]) - 1)
        return (-INF, INF)
    if k == 'k':
        return (0, 2 ** a[1] - 2)
    if k == 'b2i':
        return (0, 1)
    if k == 'ite':
        x, y = prange(a[2]), prange(a[3])
        return (min(x[0], y[0]), max(x[1], y[1]))
    if k == 'trunc' or k == 'zext':
        return (0, 2 ** a[1] - 1)
    if k == 'sext':
        return (-2 ** (a[1] - 1), 2 ** (a[1] - 1) - 1)
    if k == 'op':
        if a[1] == 'bswap':
            return (0, 2 ** a[2] - 1)
        if a[1] == 'and':
            rs = [prange(x) for x in a[2:]]
            hs = [r[1] for r in rs if r[0] >= 0]
            return (0, min(hs)) if hs else (-INF, INF)
        if a[1] in ('or', 'xor'):
            rs = [prange(x) for x in a[2:]]
            if all(r[0] >= 0 and r[1] != INF for r in rs):
                m = max(r[1] for r in rs)
                return (0, 2 ** (int(m).bit_length()) - 1)
        if a[1] == 'lshr':
            r0 = prange(a[2])
            c = poly(a[3]).const()
            if r0[0] >= 0 and c is not None and r0[1] != INF:
                return (0, int(r0[1]) >> c)
        if a[1] in ('udiv', 'urem'):
            r0 = prange(a[2])
            c = poly(a[3]).const()
            if r0[0] >= 0 and c and r0[1] != INF:
                return (int(r0[0]) // c, int(r0[1]) // c) if a[1] == 'udiv' else (0, min(r0[1], c - 1))
            if r0[0] >= 0:
                return (0, r0[1])
    if k == 'arg' and len(a) > 3 and a[3]:
        return (0, 2 ** a[3] - 1)
    if k == 'phi' and len(a) > 3 and a[3]:
        return a[3]
    return (-INF, INF)


def prange(p):
    p = poly(p)
    if p._r is not None:
        return p._r
    lo = hi = 0
    for m, c in p.t:
        a, b = 1, 1
        for x in m:
            r = arange(x)
            vals = [_mul(a, r[0]), _mul(a, r[1]), _mul(b, r[0]), _mul(b, r[1])]
            a, b = min(vals), max(vals)
        if c >= 0:
            lo += _mul(c, a)
            hi += _mul(c, b)
        else:
            lo += _mul(c, b)
            hi += _mul(c, a)
    p._r = (lo, hi)
    return p._r


def _mul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


# ---------------------------------------------------------------- substitution and entailment
def deep(x, a, b):
    """x with atom a replaced by polynomial b, also inside other atoms"""
    if isinstance(x, Poly):
        if a not in all_atoms(x):
            return x
        r = ZERO
        for m, c in x.t:
            term = poly(c)
            for y in m:
                if y == a:
                    term = term * b
                else:
                    term = term * poly(deep(y, a, b))
            r = r + term
        return r
    if isinstance(x, tuple):
        if x == a:
            return b
        return tuple(deep(y, a, b) if isinstance(y, (tuple, Poly)) else y for y in x)
    return x


def relin(facts):
    """modular comparisons that become mathematical once equalities fix the size of their sides"""
    out = set()
    eqs = None
    for f, pol in facts:
        if f[0] not in ('ult', 'slt'):
            continue
        if eqs is None:
            eqs = [g[1] for g, gp in facts if g[0] == 'eq' and gp]
        if f[0] == 'ult' and pol and f[2].const() is not None and f[1].c0() < 0:
            # x - c < q without borrow: c <= x < c + q (c + q far below the width)
            x = f[1] - f[1].c0()
            if x.single() and arange(x.single())[0] >= 0 and f[2].const() - f[1].c0() < 2 ** 31:
                out.add((('ge', x + f[1].c0()), True))
                out.add((('ge', f[2] - 1 - f[1]), True))
                continue
        p, q = (f[1], f[2]) if pol else (f[2], f[1] + 1)
        for a in list(p.aset() | q.aset()):
            if arange(a)[1] < 2 ** 17:
                continue
            for e in eqs:
                if abs(e.coef(a)) == 1:
                    v = poly(a) - e if e.coef(a) == 1 else poly(a) + e
                    if a not in v.aset():
                        p, q = p.subst(a, v), q.subst(a, v)
                        break
        rp, rq = prange(p), prange(q)
        if rp[0] >= 0 and rq[0] >= 0 and rp[1] < 2 ** 31 and rq[1] < 2 ** 31:
            out.add((('ge', q - p - 1), True))
    return out


def excluded(facts):
    """bounds from excluding the values at the ends of an atom's range one after the other"""
    ne = {}
    for f, pol in facts:
        if f[0] == 'eq' and not pol and len(f[1].t) <= 2:
            ms = [(m, c) for m, c in f[1].t if m != ()]
            if len(ms) == 1 and len(ms[0][0]) == 1 and abs(ms[0][1]) == 1:
                ne.setdefault(ms[0][0][0], set()).add(-f[1].c0() * ms[0][1])
    out = set()
    for a, vs in ne.items():
        lo, hi = arange(a)
        l, h = lo, hi
        while l in vs:
            l += 1
        while h in vs:
            h -= 1
        if l != lo:
            out.add((('ge', poly(a) - l), True))
        if h != hi:
            out.add((('ge', poly(h) - poly(a)), True))
    return out


def prove(facts, p):
    """p >= 0 follows from the facts"""
    return _combine(facts, p) or _monotone(facts, poly(p), 4)


def _monotone(facts, p, depth):
    """replace a variable in which p falls by an upper bound of it, then try again"""
    if depth == 0 or len(p.t) > 24:
        return False
    for a in sorted(p.aset(), key=akey):
        c = {}
        for m, cf in p.t:
            if m.count(a) == 1:
                c[tuple(x for x in m if x != a)] = cf
            elif a in m:
                c = None
                break
        if not c or len(c) < 2 and depth == 4 and all(len(m) == 0 for m in c):
            continue
        if prange(Poly(c))[1] > 0:
            continue
        ups = [f[1] for f, pol in facts if pol and f[0] == 'ge' and f[1].coef(a) == -1] + list(LEMMAS.get(a, ()))
        if a[0] == 'cnt':
            ups.append(poly(a[1]) - poly(a))
        for g in ups:
            if g.coef(a) != -1 or a in all_atoms(g + poly(a)):
                continue
            q = p.subst(a, g + poly(a))
            if _combine(facts, q) or _monotone(facts, q, depth - 1):
                return True
    return False


def _combine(facts, p, depth=5, seen=None):
    """p >= 0 follows from the facts as a non-negative combination (bounded search)"""
    p = poly(p)
    lo, hi = prange(p)
    if lo >= 0:
        return True
    if hi < 0 or depth == 0:
        return False
    if seen is None:
        seen = {}
    if seen.get(p, 0) >= depth:
        return False
    seen[p] = depth
    ps = p.aset()
    cands = []
    if depth == 5:
        facts = set(facts) | relin(facts)
        facts |= excluded(facts)
    for f, pol in facts:
        if f[0] == 'ge' and pol:
            cands.append(f[1])
        elif f[0] == 'eq' and pol:
            cands.append(f[1])
            cands.append(-f[1])
        elif f[0] == 'eq' and prange(f[1])[0] >= 0:
            cands.append(f[1] - 1)
    for a in ps:
        if a in LEMMAS:
            cands += LEMMAS[a]
        if a[0] == 'cnt':
            cands.append(poly(a[1]) - poly(a))
    cands = [c for c in cands if not ps.isdisjoint(c.aset())]
    for c in cands:
        if prange(p - c)[0] >= 0:
            return True
    # use a bound to the full extent
    if p.c0() < 0:
        for f in cands:
            for m, cf in f.t:
                if m != () and cf > 0 and p.coef(m[0]) > cf if len(m) == 1 else False:
                    if prange(p - f * (p.coef(m[0]) // cf))[0] >= 0:
                        return True
    # eliminate a monomial that pulls p down
    for m, c in p.t:
        if m == ():
            continue
        r = prange(Poly({m: c}))
        if r[0] >= 0:
            continue
        for f in cands:
            muls = [ONE]
            for a in m:
                if arange(a)[0] >= 0 and len(m) > 1:
                    muls.append(poly(a))
            for mu in muls:
                g = f * mu
                cg = dict(g.t).get(m, 0)
                if cg == 0 or (cg > 0) != (c > 0):
                    continue
                if c % cg:
                    if cg % c == 0:
                        # scale p instead
                        k = cg // c
                        if _combine(facts, p * k - g, depth - 1, seen):
                            return True
                    continue
                if _combine(facts, p - g * (c // cg), depth - 1, seen):
                    return True
    return False


ONE = poly(1)
