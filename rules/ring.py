"""values of scalars and group elements as expressions of the scalar field and its module (abstract interpretation)

An expression is None (not known) or a tuple of (factors, coefficient); factors is a sorted tuple of (atom, exponent).
Atoms: ('a', atom) a small number, ('v', base, offset, version) 32 bytes of memory nothing is known about,
('G',) the base point, ('s', key) the value of a place at the start of an iteration, ('x', expression) a sum under an
exponent, ('S'|'P', count, guards, body, depth) the sum or product of the body over ('kb', depth) = 0 .. count - 1 for
which the guards hold, ('q', number) a number under an exponent, ('o', id) the result of a call.
Scalars and group elements are not told apart: adding, subtracting and multiplying mean the same for both."""
from flow import *
from sym import *
import sym

ZERO_ = ()
MUL, ADD, SUB = 'crypto_core_ristretto255_scalar_mul', 'crypto_core_ristretto255_scalar_add', 'crypto_core_ristretto255_scalar_sub'
NEG, INV, COMPL = 'crypto_core_ristretto255_scalar_negate', 'crypto_core_ristretto255_scalar_invert', 'crypto_core_ristretto255_scalar_complement'
PADD, PSUB = 'crypto_core_ristretto255_add', 'crypto_core_ristretto255_sub'
SMUL, BASE = 'crypto_scalarmult_ristretto255', 'crypto_scalarmult_ristretto255_base'
RANDOM = ('crypto_core_ristretto255_scalar_random', 'randombytes_buf', 'debian_rng_scalar')
COMPARE = {'sodium_memcmp': 2, 'memcmp': 2, 'bcmp': 2, 'crypto_verify_32': None, 'sodium_is_zero': 1, 'sodium_compare': 2}
SMALL = 24


def fkey(f):
    return repr(f)


def build_(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=fkey))


def const(c):
    return build_({(): c})


def atom(a, e=ONE):
    return (((((a, poly(e)),)), 1),)


def num(p):
    """a small number"""
    d = {}
    for m, c in poly(p).t:
        f = {}
        for a in m:
            f[('a', a)] = f.get(('a', a), ZERO) + 1
        k = tuple(sorted(f.items(), key=fkey))
        d[k] = d.get(k, 0) + c
    return build_(d)


def plus(a, b):
    if a is None or b is None:
        return None
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + c
    return build_(d)


def scale(a, c):
    return None if a is None else tuple((m, x * c) for m, x in a) if c else ZERO_


def minus(a, b):
    return plus(a, scale(b, -1))


def times(a, b):
    if a is None or b is None:
        return None
    if len(a) * len(b) > SMALL * SMALL:
        return None
    out = ZERO_
    for m, c in a:
        for n, d in b:
            r = mono(m, n, c * d)
            if r is None:
                return None
            out = plus(out, r)
    return out


def mono(m, n, c):
    f = dict(m)
    for a, e in n:
        f[a] = f.get(a, ZERO) + e
    return finish(f, c)


def finish(f, c):
    """the expression c * product of factors, in normal form"""
    extra = []
    for a in list(f):
        e = f[a]
        if e.const() is not None and (a == ('q', -1) or a[0] == 'P' and a[3] == const(-1)):
            e = f[a] = poly(e.const() % 2)        # its own inverse
        if e == ZERO:
            del f[a]
        elif a[0] == 'q' and e.const() is not None and e.const() > 0:
            c *= a[1] ** e.const()
            del f[a]
        elif a[0] == 'x' and e.const() is not None and 0 < e.const() <= 3:
            extra += [a[1]] * e.const()
            del f[a]
    sums = [a for a in f if a[0] == 'S' and f[a] == ONE]
    if sums and (len(f) > 1 or c != 1):
        s = sums[0]
        if len(f) == 1 and c != 1:
            return ((((s, ONE),), c),) if c else ZERO_
        rest = dict(f)
        del rest[s]
        r = finish(rest, 1)
        if r is None:
            return None
        kb = ('bv', s[4])
        body = times(esub(s[3], ('kb', s[4]), poly(kb)), r)
        out = bind('S', kb, s[1], gsub(s[2], ('kb', s[4]), poly(kb)), body)
        out = scale(out, c)
    else:
        out = build_({tuple(sorted(f.items(), key=fkey)): c})
    for e in extra:
        out = times(out, e)
    return out


def power(a, e):
    """a to the power of e"""
    if a is None:
        return None
    e = poly(e)
    c = e.const()
    if c == 0:
        return const(1)
    if c == 1:
        return a
    if a == ZERO_:
        return None
    if len(a) == 1:
        m, k = a[0]
        f = {x: y * e for x, y in m}
        if k == -1 and c is not None:
            return finish(f, -1 if c % 2 else 1)
        if k != 1:
            f[('q', k)] = e
        return finish(f, 1)
    if c is not None and 1 < c <= 3:
        return times(a, power(a, c - 1))
    s = 1
    if a[0][1] < 0:
        s, a = -1, scale(a, -1)
    f = {('x', a): e}
    if s < 0:
        if c is not None:
            return finish(f, -1 if c % 2 else 1)
        f[('q', -1)] = e
    return finish(f, 1)


def depth(e):
    d = 0
    for m, c in e:
        for a, x in m:
            if a[0] in ('S', 'P'):
                d = max(d, a[4])
            elif a[0] == 'x':
                d = max(d, depth(a[1]))
    return d


def has(x, k):
    if isinstance(x, Poly):
        return k in all_atoms(x)
    if isinstance(x, frozenset):
        return any(has(y, k) for y in x)
    if isinstance(x, tuple):
        return x == k or any(has(y, k) for y in x if isinstance(y, (tuple, Poly, frozenset)))
    return False


def gsub(g, k, v):
    return frozenset(lit_sub(l, k, v) for l in g)


def lit_sub(l, k, v):
    (x, pol) = l
    if x[0] in ('eq', 'ge') and has(x, k):
        q = deep(x[1], k, v)
        r = Eq(q) if x[0] == 'eq' else Ge(q)
        if r is True or r is False:
            return (('const', r), pol)
        if r[0] == 'lit':
            return (r[1], r[2] == pol)
    return (deep(x, k, v), pol)


def esub(e, k, v):
    """e with the number k replaced by the polynomial v"""
    return emap(e, lambda p: deep(p, k, v), lambda g: gsub(g, k, v), lambda x: has(x, k))


def emap(e, pf, gf, need=lambda x: True):
    """e with all polynomials mapped by pf and guards by gf"""
    if e is None or not need(e):
        return e
    out = ZERO_
    for m, c in e:
        r = const(c)
        for a, x in m:
            r = times(r, power(amap(a, pf, gf, need), pf(x)))
        out = plus(out, r)
    return out


def amap(a, pf, gf, need):
    if not need(a):
        return atom(a)
    if a[0] == 'a':
        return num(pf(poly(a[1])))
    if a[0] == 'v':
        return atom(('v', a[1], pf(a[2]), a[3]))
    if a[0] == 'x':
        return emap(a[1], pf, gf, need)
    if a[0] in ('S', 'P'):
        kb = ('bv', a[4])
        body = emap(esub(a[3], ('kb', a[4]), poly(kb)), pf, gf, need)
        return bind(a[0], kb, pf(a[1]), gf(gsub(a[2], ('kb', a[4]), poly(kb))), body)
    return atom(a)


def ereplace(e, s, v):
    """e with the atom s replaced by the expression v"""
    if e is None:
        return None
    out = ZERO_
    for m, c in e:
        r = const(c)
        for a, x in m:
            r = times(r, power(v, x) if a == s else atom(a, x))
        out = plus(out, r)
    return out


def bind(kind, k, count, guards, body):
    """sum or product of body over k = 0 .. count - 1 with the guards"""
    if body is None:
        return None
    count = poly(count)
    if ('const', True) in [l for l, p in guards if not p] or ('const', False) in [l for l, p in guards if p]:
        return ZERO_ if kind == 'S' else const(1)
    guards = frozenset((l, p) for l, p in guards if l[0] != 'const')
    if count == ZERO:
        return ZERO_ if kind == 'S' else const(1)
    if kind == 'S':
        out = ZERO_
        for m, c in body:
            out = plus(out, scale(closed('S', k, count, guards, ((m, 1),)), c))
        return out
    if body == ZERO_:
        return None
    if not guards and not has(body, k):
        return power(body, count)
    if len(body) > 1:
        return closed('P', k, count, guards, body)
    (m, c), = body
    r = const(1)
    if c != 1:
        r = closed('P', k, count, guards, const(c)) if guards else power(const(c), count)
    for a, e in m:
        if has(e, k):
            r = times(r, closed('P', k, count, guards, atom(a, e)))
        elif not guards and not has(a, k):
            r = times(r, atom(a, e * count))
        else:
            b = a[1] if a[0] == 'x' else atom(a)
            r = times(r, power(closed('P', k, count, guards, b), e))
    return r


def closed(kind, k, count, guards, body):
    if kind == 'S' and not guards and not has(body, k):
        return times(num(count), body)
    d = depth(body) + 1
    best = None
    for v in (poly(('kb', d)), count - 1 - poly(('kb', d))):
        b = esub(body, k, v)
        if b is None:
            return None
        sign = kind == 'P' and len(b) > 1 and b[0][1] < 0
        c = (kind, count, gsub(guards, k, v), scale(b, -1) if sign else b, d)
        if best is None or (len(fkey(c)), fkey(c)) < (len(fkey(best[0])), fkey(best[0])):
            best = c, sign
    r = atom(best[0])
    if best[1]:
        r = times(r, closed('P', k, count, guards, const(-1)) if guards else power(const(-1), count))
    return r


def at(a, i):
    """the term of a sum or factor of a product for place i"""
    return esub(a[3], ('kb', a[4]), poly(i))


def absorb(e):
    """terms that continue a sum at one of its ends become part of it, likewise factors of a product"""
    if e is None:
        return None
    changed = True
    while changed:
        changed = False
        for m, c in e:
            if len(m) != 1 or m[0][0][0] != 'S' or m[0][1] != ONE:
                continue
            a = m[0][0]
            if a[2]:
                continue
            kb = ('bv', a[4])
            body = esub(a[3], ('kb', a[4]), poly(kb))
            for i, b2 in ((a[1], body), (poly(-1), esub(body, kb, poly(kb) - 1))):
                t = scale(at(a, i), c)
                if t is None or len(t) != 1 or t[0] not in e:
                    continue
                rest = tuple(x for x in e if x != t[0] and x != (m, c))
                e = plus(rest, scale(bind('S', kb, a[1] + 1, a[2], b2), c))
                changed = True
                break
            if changed:
                break
            for m2, c2 in e:
                if len(m2) == 1 and m2[0][0][0] == 'S' and m2[0][1] == ONE and c2 == c and m2 != m and not m2[0][0][2]:
                    b = m2[0][0]
                    if b[4] == a[4] and bind('S', kb, b[1], b[2], esub(body, kb, poly(kb) + a[1])) == atom(b):
                        rest = tuple(x for x in e if x not in ((m, c), (m2, c2)))
                        e = plus(rest, scale(bind('S', kb, a[1] + b[1], a[2], body), c))
                        changed = True
                        break
            if changed:
                break
    out = ZERO_
    for m, c in e:
        f = dict(m)
        again = True
        while again:
            again = False
            for a in list(f):
                if a[0] != 'P' or a[2] or f[a].const() is None:
                    continue
                kb = ('bv', a[4])
                body = esub(a[3], ('kb', a[4]), poly(kb))
                for i, b2 in ((a[1], body), (poly(-1), esub(body, kb, poly(kb) - 1))):
                    t = power(at(a, i), f[a])
                    if t is None or len(t) != 1 or t[0][1] != 1 or not t[0][0] or any(f.get(x) != y for x, y in t[0][0]):
                        continue
                    e2 = f.pop(a)
                    for x, y in t[0][0]:
                        del f[x]
                    nw = power(bind('P', kb, a[1] + 1, a[2], b2), e2)
                    (m3, c3), = nw
                    for x, y in m3:
                        f[x] = f.get(x, ZERO) + y
                    c *= c3
                    again = True
                    break
                if again:
                    break
        out = plus(out, finish(f, c))
    return out


def contradict(g, h):
    if any((l, not p) in h for l, p in g):
        return True
    if any(l[0] == 'const' and l[1] != p for l, p in g | h):
        return True
    st = State(frozenset(g))
    for l, p in h:
        c = ('lit', l, p) if l[0] != 'or' else Or(*l[1])
        if l[0] == 'or' and not p:
            c = Not(c)
        st = assume(st, c)
        if st is None:
            return True
    return False


def single_byte(e):
    """a number below 256"""
    if len(e) != 1:
        return False
    m, c = e[0]
    if not m:
        return 0 <= c < 256
    return c == 1 and len(m) == 1 and m[0][1] == ONE and m[0][0][0] == 'a' and arange(m[0][0][1])[0] >= 0 and arange(m[0][0][1])[1] < 256


LIMIT = 48


def together(alts):
    """one alternative for several, knowing what all of them know"""
    g = alts[0][0]
    e = dict(alts[0][1])
    for h, f in alts[1:]:
        g = g & h
        for k in set(e) | set(f):
            if e.get(k, 0) != f.get(k, 0):
                e[k] = ((None, None, None),) if k[1] == '*' else None
    return g, e


class Ring:
    def __init__(self, fn, watch=()):
        self.fn = fn
        self.latch = {}                  # loop -> alternatives at the end of an iteration
        self.ends = []                   # (ret, guards, env)
        self.watch = watch
        self.note = {}                   # call -> [(guards, values of its operands)]
        self.phis = set()
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op == 'phi' and ins.ty[0] == 'i' and b.name not in fn.loops:
                    self.phis.add(ins.name)
        self.run()

    def run(self):
        fn = self.fn
        self.region(set(fn.alive), fn.f.entry.name, [(frozenset(), {})])

    # ---- memory
    def apart(self, a, b, na=32, nb=32):
        d = (a - b).const()
        if d is not None:
            return d >= nb or -d >= na
        return self.fn.disjoint(a, na, b, nb)

    def read(self, env, addr):
        b, off = self.fn.base(addr)
        if (b, off) in env:
            return env[(b, off)]
        if b is None:
            return None
        if b[0] == 'glob':
            bs = self.fn.globbytes(addr)
            if bs and len(bs) >= 32:
                return const(int.from_bytes(bytes(bs[:32]), 'little'))
            return None
        for key in env:
            if key[0] == b and isinstance(key[1], Poly) and not self.apart(off, key[1]):
                return None
        byte = None
        for o, n, kind in reversed(env.get((b, '*'), ())):
            if o is not None and n is not None:
                if self.apart(off, o, 32, n):
                    continue
                if kind and kind[0] == 'byte' and o == off:
                    byte = kind[1] if byte is None else byte
                    continue
                d = (off - o).const()
                if d is None or d < 0 or d + 32 > n:
                    return None
            if kind is None or byte is not None and kind[0] != 'zero':
                return None
            if kind[0] == 'copy':
                return atom(('v', kind[1], kind[2] + (off - o), kind[3]))
            if kind[0] == 'arr':
                return atom(('v', b, off, kind[1]))
            if kind[0] == 'zero':
                return ZERO_ if byte is None else num(byte)
            return None
        return atom(('v', b, off, 0)) if byte is None else None

    def byte(self, env, addr):
        """the number in one byte"""
        b, off = self.fn.base(addr)
        for key in env:
            if key[0] == b and isinstance(key[1], Poly) and not self.apart(off, key[1], 1, 32):
                return poly(('o', 'byte', addr))
        for o, n, kind in reversed(env.get((b, '*'), ())):
            if o is not None and n is not None and self.apart(off, o, 1, n):
                continue
            d = (off - o).const() if o is not None and n is not None else None
            if kind and d is not None and 0 <= d < n:
                if kind[0] == 'byte':
                    return kind[1]
                if kind[0] == 'zero':
                    return ZERO
                if kind[0] == 'copy' and kind[3] == 0:
                    return poly(('in', poly(kind[1]) + kind[2] + d, 1))
            return poly(('o', 'byte', addr))
        return poly(('in', addr, 1))

    def wipe(self, env, b, off, n, kind=None):
        """n bytes at off of b change to something else"""
        env = dict(env)
        for key in list(env):
            if key[0] == b and isinstance(key[1], Poly) and (off is None or n is None or not self.apart(off, key[1], n, 32)):
                d = (key[1] - off).const() if off is not None and n is not None else None
                if d is not None and 0 <= d and d + 32 <= n:
                    del env[key]
                else:
                    env[key] = None
        rs = env.get((b, '*'), ())
        new = (off if n is not None else None, n, kind)
        if new in rs:
            rs = tuple(x for x in rs if x != new)
        env[(b, '*')] = (rs + (new,))[-24:] if len(rs) < 24 else ((None, None, None), new)
        return env

    def write(self, env, addr, v):
        b, off = self.fn.base(addr)
        env = self.wipe(env, b, off, 32)
        rs = env[(b, '*')][:-1]
        if rs:
            env[(b, '*')] = rs
        else:
            del env[(b, '*')]
        env[(b, off)] = v
        return env

    def small(self, ins, v):
        """the number a byte store puts there"""
        a = v.single()
        if a is not None and a[0] == 'trunc' and a[1] == 8:
            p = poly(a[2])
            if prange(p)[0] >= 0 and prange(p)[1] < 256:
                return p
            sts = self.facts().states_before(ins)
            if sts and all(prove(s.facts, p) and prove(s.facts, poly(255) - p) for s in sts):
                return p
        return v

    def facts(self):
        if not hasattr(self, '_facts'):
            self._facts = Facts(self.fn)
        return self._facts

    def step(self, env, ins, guards=frozenset()):
        fn = self.fn
        if ins.op == 'store':
            addr, ty = fn.val(ins.ops[1]), ins.extra['ty']
            b, off = fn.base(addr)
            size = fn.mod.types.size(ty)
            if ty[0] == 'i' and b is not None:
                v = self.small(ins, fn.val(ins.ops[0], ty))
                old = env.get((b, off))
                if old is not None and (old == ZERO_ or size == 1 and single_byte(old)):
                    return self.write(env, addr, num(v))
                if size == 1 and (b, off) not in env:
                    return self.wipe(env, b, off, size, ('byte', v))
            return self.wipe(env, b, off, size)
        if ins.op != 'call':
            return env
        c = ins.callee
        a = fn.args(ins)
        rd = lambda i: self.read(env, a[i])
        if c in COMPARE:
            n = a[COMPARE[c]].const() if COMPARE[c] is not None else 32
            env = dict(env)
            vals = (rd(0), ZERO_ if c == 'sodium_is_zero' else rd(1)) if n == 32 else None
            env[('cmp', fn.val(('loc', ins.name), ins.ty).single() if ins.name else None)] = vals
            return env
        if ins in self.watch:
            self.note.setdefault(ins, []).append((guards, [self.read(env, x) if x.t and fn.base(x)[0] is not None else None for x in a]))
        if c in (MUL, SMUL):
            if c == SMUL and rd(2) is not None and rd(2) == ZERO_:
                return self.write(env, a[0], None)
            return self.write(env, a[0], times(rd(1), rd(2)))
        if c in (ADD, PADD):
            return self.write(env, a[0], plus(rd(1), rd(2)))
        if c in (SUB, PSUB):
            return self.write(env, a[0], minus(rd(1), rd(2)))
        if c == NEG:
            return self.write(env, a[0], scale(rd(1), -1))
        if c == COMPL:
            return self.write(env, a[0], minus(const(1), rd(1)))
        if c == INV:
            return self.write(env, a[0], power(rd(1), -1))
        if c == BASE:
            return self.write(env, a[0], times(rd(1), atom(('G',))))
        if c in ('memcpy', 'memmove'):
            n = a[2].const()
            (sb, so), (db, do) = fn.base(a[1]), fn.base(a[0])
            if n is not None and n >= 32:
                vals = []
                if n == 32:
                    vals = [(0, rd(1))]
                else:
                    for key, v in env.items():
                        if key[0] == sb and isinstance(key[1], Poly):
                            d = (key[1] - so).const()
                            if d is None:
                                if not self.apart(so, key[1], n, 32):
                                    vals.append((None, None))
                            elif 0 <= d <= n - 32:
                                vals.append((d, v))
                            elif -32 < d < n:
                                vals.append((None, None))
                kind = None
                if n > 32 and (None, None) not in vals and sb is not None:
                    kind = ('copy', sb, so, 0)
                    if sb[0] == 'glob':
                        bs = fn.globbytes(a[1])
                        kind = ('zero',) if bs and len(bs) >= n and not any(bs[:n]) else None
                    for o, m, kd in reversed(env.get((sb, '*'), ())):
                        if o is not None and self.apart(so, o, n, m):
                            continue
                        d = (so - o).const() if o is not None else None
                        if kd and kd[0] == 'copy' and d is not None and d >= 0 and d + n <= m:
                            kind = ('copy', kd[1], kd[2] + d, kd[3])
                        elif kd and kd[0] == 'arr':
                            kind = ('copy', sb, so, kd[1])
                        else:
                            kind = None
                        break
                if n == 32:
                    return self.write(env, a[0], vals[0][1])
                env = self.wipe(env, db, do, n, kind)
                for d, v in vals:
                    if d is not None:
                        env = self.write(env, a[0] + d, v)
                return env
            return self.wipe(env, db, do, n)
        if c in ('memset', 'sodium_memzero', 'explicit_bzero'):
            n = a[2 if c == 'memset' else 1].const()
            zero = c != 'memset' or a[1] == ZERO
            b, off = fn.base(a[0])
            if n == 32 and zero:
                return self.write(env, a[0], ZERO_)
            if n is not None:
                return self.wipe(env, b, off, n, ('zero',) if zero else None)
            return self.wipe(env, b, None, None)
        for w in fn.writes_of(ins):
            if w[4] == 'free':
                continue
            n = w[3].const() if isinstance(w[3], Poly) else w[3]
            if w[2] is None:
                env = self.wipe(env, w[1], None, None)
            elif n == 32:
                env = self.write(env, w[2], atom(('o', c, ins.name or str(id(ins)), n)))
            else:
                b, off = fn.base(w[2])
                env = self.wipe(env, b, off, n)
        if c in RANDOM or c == 'crypto_core_ristretto255_from_hash' or c == 'crypto_core_ristretto255_scalar_reduce':
            env = self.write(env, a[0], atom(('o', c, fn.where(ins), self.tag(ins))))
        return env

    def tag(self, ins):
        return ins.block.name, ins.block.instrs.index(ins)

    # ---- control
    def cond(self, env, c):
        """condition with the values the tracked phis have on this path"""
        if c is True or c is False:
            return c
        ats = [a for a in all_atoms(c) if a[0] == 'phi']
        for a in ats:
            v = env.get(('phi', a))
            if v is not None and v != poly(a):
                c = resub(c, a, v)
                if c is True or c is False:
                    return c
        return c

    def follow(self, alt, b, s):
        """alternative on the edge, None if it cannot be taken"""
        fn = self.fn
        g, env = alt
        c = self.cond(env, fn.edge_cond(b, s))
        if c is False:
            return None
        if c is not True:
            ls = frozenset(literals(c))
            if contradict(g, ls):
                return None
            g = g | ls
        ps = [i for i in s.instrs if i.op == 'phi' and i.name in self.phis]
        if ps:
            env = dict(env)
            vals = {}
            for i in ps:
                for v, blk in zip(i.ops, i.extra['blocks']):
                    if blk == b.name:
                        p = fn.val(v, i.ty)
                        for a in list(all_atoms(p)):
                            if a[0] == 'phi' and env.get(('phi', a)) is not None:
                                p = deep(p, a, env[('phi', a)])
                        vals[fn.val(('loc', i.name), i.ty).single()] = p
            for a, p in vals.items():
                if a is not None:
                    env[('phi', a)] = p
        return g, env

    @staticmethod
    def merge(alts):
        """alternatives with the same values become one"""
        out = []
        for g, env in alts:
            for i, (h, e) in enumerate(out):
                if e == env:
                    out[i] = (g & h, e)
                    break
            else:
                out.append((g, env))
        # too many: first give up flags, then all but the outcomes of comparisons, then everything
        for keep in (lambda k: k[0] != 'phi', lambda k: k[0] == 'cmp', lambda k: False):
            if len(out) <= LIMIT:
                break
            groups = {}
            for g, env in out:
                groups.setdefault(repr(sorted(((k, v) for k, v in env.items() if keep(k)), key=repr)), []).append((g, env))
            out = [together(x) for x in groups.values()]
        return out

    def region(self, blocks, entry, alts, header=None):
        fn = self.fn
        inst = {entry: alts}
        out = {}
        inner = {h for h in fn.loops if h in blocks and h != header and
                 not any(h in fn.loops[g] and g != h and g != header and g in blocks for g in fn.loops)}
        owner = {b: h for h in inner for b in fn.loops[h]}

        def flow(b, s, alts):
            if s not in blocks or s == header:
                out[(b, s)] = self.merge(out.get((b, s), []) + alts)
            else:
                inst[s] = self.merge(inst.get(s, []) + alts)
        for blk in fn.rpo:
            n = blk.name
            if n not in blocks or n not in inst:
                continue
            if n in owner:
                if n != owner[n]:
                    continue
                res = {}
                self.latch[n] = []
                for alt in inst[n]:
                    for e, alts in self.loop(n, alt).items():
                        res.setdefault(e, []).extend(alts)
                for (b, s), alts in res.items():
                    flow(b, s, alts)
                continue
            cur = []
            for g, env in inst[n]:
                for ins in blk.instrs:
                    env = self.step(env, ins, g)
                if blk.instrs[-1].op == 'ret' and header is None:
                    self.ends.append((blk.instrs[-1], g, env))
                cur.append((g, env))
            for s in {s.name: s for s in fn.succ(blk)}.values():
                nx = [r for r in (self.follow(alt, blk, s) for alt in cur) if r is not None]
                if nx:
                    flow(n, s.name, nx)
        return out

    def first(self, h, g, b, s):
        """iteration in which the loop is left through this edge because of its counter"""
        fn = self.fn
        k = fn.ivinfo[h]['k']
        if not all(fn.dominates(b, l) for l, hh in fn.backedges if hh == h):
            return None
        for l, pol in literals(fn.edge_cond(fn.f.blocks[b], fn.f.blocks[s])):
            if l[0] == 'ge' and pol and l[1].coef(k) == 1:
                B = poly(k) - l[1]
            elif l[0] == 'eq' and pol and abs(l[1].coef(k)) == 1:
                B = poly(k) - l[1] if l[1].coef(k) == 1 else poly(k) + l[1]
            elif l[0] in ('slt', 'ult') and not pol and l[1].coef(k) - l[2].coef(k) == 1:
                B = l[2] - l[1] + poly(k)
            elif l[0] in ('slt', 'ult') and pol and l[2].coef(k) - l[1].coef(k) == 1:
                B = l[1] - l[2] + poly(k) + 1
            else:
                continue
            if k not in all_atoms(B):
                return B
        return None

    def loop(self, h, alt):
        fn = self.fn
        g0, env0 = alt
        blocks = fn.loops[h]
        k = fn.ivinfo[h]['k']
        run = lambda env: self.region(blocks, h, [(g0, env)], h)
        probe = run({})
        keys, ranges = set(), {}
        for e, alts in probe.items():
            for g, env in alts:
                for key, v in env.items():
                    if isinstance(key[1], Poly):
                        keys.add(key)
                    elif key[1] == '*':
                        ranges.setdefault(key[0], set()).update(v)
        variant = lambda p: p is not None and (k in all_atoms(p) or any(fn.variant_in(poly(x), h) for x in p.aset()))
        varying = {key for key in keys if variant(key[1])}
        fixed = keys - varying
        start = {key: v for key, v in env0.items() if key not in varying and key[0] != 'cmp'}
        whole = {key[0] for key in varying} | {b for b, rs in ranges.items() for o, n, kd in rs if o is None or variant(o)}
        for b in whole:
            start = self.wipe(start, b, None, None, ('arr', ('in', h)))
        fixed = {key for key in fixed if key[0] not in whole}
        for b, rs in ranges.items():
            if b not in whole:
                for o, n, kd in rs:
                    if not any(key[0] == b and key[1] == o and n == 32 for key in fixed):
                        pass
        changed = set()

        def backs(out):
            r = []
            for (b, s), alts in out.items():
                if s == h:
                    r += alts
            return self.merge(r)
        for _ in range(40):
            cur = dict(start)
            for key in changed:
                cur[key] = atom(('s', key))
            out = run(cur)
            bk = backs(out)
            new = set()
            for g, env in bk:
                for key in fixed:
                    if (env[key] if key in env else self.read(env, addr_of(key))) != (cur[key] if key in cur else self.read(cur, addr_of(key))):
                        new.add(key)
                for key, v in env.items():
                    if key[1] == '*' and v != cur.get(key) and key[0] not in whole:
                        # bytes changed wholesale: unknown at the head from now on
                        for o, n, kd in v:
                            if (o, n, kd) not in cur.get(key, ()) and (o, n, None) not in start.get(key, ()):
                                start = self.wipe(start, key[0], o, n)
                                new.add(key)
            new -= changed
            new2 = {key for key in new if key[1] != '*'}
            if not new:
                break
            changed |= new2
        closed_, todo = {}, set(changed)
        progress = True
        while progress and todo:
            progress = False
            for key in sorted(todo, key=fkey):
                r = self.solve(h, key, [(g - g0, env.get(key)) for g, env in bk], start, closed_, k)
                if r is not None:
                    closed_[key] = r
                    todo.discard(key)
                    progress = True
            if progress and todo:
                cur = dict(start)
                for key in changed:
                    cur[key] = closed_[key](poly(k)) if key in closed_ else atom(('s', key))
                bk = backs(run(cur))
        cur = dict(start)
        for key in changed:
            cur[key] = closed_[key](poly(k)) if key in closed_ else None
        final = run(cur)
        bk = backs(final)
        self.latch[h] = self.latch.get(h, []) + bk
        res = {}
        for (b, s), alts in final.items():
            if s == h:
                continue
            B = self.first(h, g0, b, s)
            done = []
            for g, env in alts:
                env = dict(env)
                for key in list(env):
                    if key in varying:
                        del env[key]
                if B is not None:
                    for key in changed:
                        v = env.get(key)
                        if v is None or key not in closed_:
                            env[key] = None
                        elif v == cur[key]:
                            env[key] = closed_[key](B)
                        elif bk and all(e.get(key) == v for _, e in bk):
                            env[key] = closed_[key](B + 1)
                        else:
                            env[key] = esub(v, k, B)
                    for key in list(env):
                        if key not in changed and (isinstance(key[1], Poly) or key[0] == 'cmp') and env[key] is not None:
                            if key[0] == 'cmp':
                                env[key] = tuple(esub(x, k, B) for x in env[key])
                            else:
                                env[key] = esub(env[key], k, B)
                    # what held in an iteration is not kept
                    g = g0
                for b2 in whole:
                    env = self.wipe(env, b2, None, None, ('arr', ('out', h)))
                done.append((g, env))
            res[(b, s)] = self.merge(done)
        return res

    def solve(self, h, key, alts, start, closed_, k):
        """value at the head of iteration c, as a function of c"""
        me = ('s', key)
        v0 = start[key] if key in start else self.read(start, addr_of(key))
        groups = {}
        if not alts:
            return None
        for g, e in alts:
            if e is None:
                return None
            A, R = ZERO_, ZERO_
            for m, c in e:
                f = dict(m)
                x = f.pop(me, None)
                if any(a[0] == 's' and a != me for a in f) or has(tuple(f), me):
                    return None
                if x is None:
                    R = plus(R, ((m, c),))
                elif x == ONE:
                    A = plus(A, finish(f, c))
                else:
                    return None
            if A is None or R is None or any(has((A, R), ('s', o)) for o in ()):
                return None
            groups.setdefault((A, R), []).append(g)
        gs = self.guards(groups)
        if gs is None:
            return None
        if v0 is None and any(A != ZERO_ for A, R in groups):
            zero = [x for x in gs if x[0] == ZERO_]
            if not zero:
                return None
        # the first iteration may set what the others add to
        out = []
        for A, R, g in gs:
            if A == ZERO_ and g == frozenset({(('eq', poly(k)), True)}) and len(gs) > 1:
                v0 = ZERO_
                A = const(1)
                rest = [(A2, R2) for A2, R2, g2 in gs if (A2, R2) != (ZERO_, R)]
                if len(rest) == 1 and rest[0][0] == const(1) and rest[0][1] == R:
                    g = None
            out.append((A, R, g))
        if any(g is None for A, R, g in out):
            out = [(const(1), out[0][1], frozenset())]
        if v0 is None:
            return None
        kb = k + ('bound',)
        if all(A == const(1) for A, R, g in out):
            def f(c):
                r = v0
                for A, R, g in out:
                    r = plus(r, bind('S', kb, c, gsub(g, k, poly(kb)), esub(R, k, poly(kb))))
                return r
            return f
        if all(R == ZERO_ for A, R, g in out):
            if v0 == ZERO_:
                return lambda c: ZERO_

            def f(c):
                r = v0
                for A, R, g in out:
                    r = times(r, bind('P', kb, c, gsub(g, k, poly(kb)), esub(A, k, poly(kb))))
                return r
            return f
        if len(out) == 1 and not has(out[0][0], k) and out[0][0] != ZERO_:
            A, R, g = out[0]

            def f(c):
                r = bind('S', kb, c, frozenset(), times(esub(R, k, poly(kb)), power(A, poly(c) - 1 - poly(kb))))
                return plus(times(power(A, c), v0), r)
            return f
        return None

    @staticmethod
    def guards(groups):
        """[(A, R, condition)] with conditions of one literal set per alternative, as short as keeps them apart"""
        if len(groups) == 1:
            (A, R), = groups
            return [(A, R, frozenset())]
        out = []
        for (A, R), gs in groups.items():
            others = [g for key, hs in groups.items() if key != (A, R) for g in hs]
            short = set()
            for g in gs:
                if not all(contradict(g, o) for o in others):
                    return None
                for l in sorted(g, key=fkey):
                    if all(contradict(g - {l}, o) for o in others):
                        g = g - {l}
                short.add(g)
            if len(short) > 1:
                # covering each other
                short = {g for g in short if not any(h < g for h in short)}
            for g in short:
                out.append((A, R, g))
            if len(short) > 1 and not all(contradict(a, b) for a in short for b in short if a != b):
                if (A, R) != (const(1), ZERO_):
                    return None
        return out


def resub(c, a, v):
    if c is True or c is False:
        return c
    if c[0] == 'lit':
        l = c[1]
        if not has(l, a):
            return c
        if l[0] == 'eq':
            r = Eq(deep(l[1], a, v))
        elif l[0] == 'ge':
            r = Ge(deep(l[1], a, v))
        else:
            return c
        return r if c[2] else Not(r)
    if c[0] == 'and':
        return And(*[resub(x, a, v) for x in c[1]])
    if c[0] == 'or':
        return Or(*[resub(x, a, v) for x in c[1]])
    return c


def addr_of(key):
    return poly(key[0]) + key[1] if isinstance(key[0], tuple) else key[1]


def shown(e):
    if e is None:
        return '?'
    if e == ZERO_:
        return '0'
    out = []
    for m, c in e:
        s = [] if c == 1 and m else [str(c)]
        for a, x in m:
            n = aname(a)
            s.append(n if x == ONE else '%s^(%s)' % (n, show(x)))
        out.append('*'.join(s))
    return ' + '.join(out)


def aname(a):
    if a[0] == 'a':
        return show(poly(a[1]))
    if a[0] == 'v':
        return '[%s]%s' % (show(poly(a[1]) + a[2]), '' if a[3] == 0 else "'")
    if a[0] in ('S', 'P'):
        return '%s{k%d<%s%s: %s}' % ('sum' if a[0] == 'S' else 'prod', a[4], show(a[1]), ''.join(', ' + ('' if p else 'not ') + str(l) for l, p in a[2]), shown(a[3]))
    if a[0] == 'x':
        return '(%s)' % shown(a[1])
    return '.'.join(str(x) for x in a)


# ---------------------------------------------------------------- byte arrays filled by loops
class Arrays:
    """what local byte arrays hold once the loops filling them are done"""
    def __init__(self, fn, ring):
        self.fn, self.ring = fn, ring
        self.writes, self.reads = {}, {}
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op in ('store', 'call'):
                    for w in fn.writes_of(ins):
                        if w[4] != 'free':
                            self.writes.setdefault(w[1], []).append((ins, w))
                if ins.op == 'load':
                    self.reads.setdefault(fn.base(fn.val(ins.ops[0]))[0], []).append(ins)
        self.memo = {}
        self.inputs = {}

    def written(self, base):
        return base in self.writes

    def of(self, base):
        if base not in self.memo:
            self.memo[base] = None
            if base is not None and base[0] == 'alloca':
                self.memo[base] = self.permutation(base) or self.filled(base)
        return self.memo[base]

    def innermost(self, ins):
        hs = [h for h in self.fn.loops if ins.block.name in self.fn.loops[h]]
        return min(hs, key=lambda h: len(self.fn.loops[h])) if hs else None

    def fill(self, base, ins):
        """(header, k, count, offset, value) of a store made once per iteration of a loop run to its end"""
        fn = self.fn
        h = self.innermost(ins)
        if h is None or ins.op != 'store' or ins.extra['ty'] != ('i', 8):
            return None
        if not all(fn.dominates(ins.block.name, l) for l, hh in fn.backedges if hh == h):
            return None
        ex = [(b, s.name) for b in fn.loops[h] for s in fn.succ(fn.f.blocks[b]) if s.name not in fn.loops[h]]
        if len(ex) != 1:
            return None
        B = self.ring.first(h, None, *ex[0])
        if B is None:
            return None
        if ex[0][0] != h:
            # tested after the store: one more
            if not fn.dominates(ins.block.name, ex[0][0]):
                return None
            B = B + 1
        off = fn.base(fn.val(ins.ops[1]))[1]
        v = fn.val(ins.ops[0], ('i', 8))
        a = v.single()
        if a is not None and a[0] == 'trunc':
            v = poly(a[2])
        return h, fn.ivinfo[h]['k'], B, off, v

    def count(self, h, B, n):
        """the loop at h runs n times"""
        if B == n:
            return True
        a = B.single()
        if a is not None and a[0] in ('trunc', 'zext', 'op'):
            sts = [s for s in self.ring.facts().at.get(h, {}).values()]
            if a[0] == 'trunc' and poly(a[2]) == n:
                return bool(sts) and all(prove(s.facts, poly(2 ** a[1] - 1) - n) for s in sts)
        return False

    def filled(self, base):
        fn = self.fn
        ws = self.writes.get(base, [])
        if len(ws) != 1:
            return None
        f = self.fill(base, ws[0][0])
        if f is None:
            return None
        h, k, B, off, v = f
        for r in self.reads.get(base, []):
            if r.block.name in fn.loops[h] or not fn.dominates(h, r.block.name):
                return None
        u = ('u', base)
        for x, y in ((poly(k), poly(u)), (B - 1 - poly(k), B - 1 - poly(u))):
            if off == x:
                return ('fill', h, B, u, deep(v, k, y))
        p = off.single()
        if p is not None and p[0] == 'ld':
            pb, po = fn.base(p[1])
            r = self.of(pb)
            if r and r[0] == 'perm' and po == poly(k) and self.count(r[1], r[2], B):
                w = deep(v, p, poly(u))
                if not has(w, k):
                    return ('fill', h, B, u, w)
        return None

    def permutation(self, base):
        fn = self.fn
        ws = [w[0] for w in self.writes.get(base, [])]
        ident, swaps = [], {}
        for ins in ws:
            f = self.fill(base, ins)
            if f and f[3] == poly(f[1]) and f[4] == poly(f[1]):
                ident.append((ins, f))
            elif ins.op == 'store' and ins.extra['ty'] == ('i', 8):
                swaps.setdefault(ins.block.name, []).append(ins)
            else:
                return None
        if len(ident) != 1:
            return None
        h, k, B = ident[0][1][:3]
        if ident[0][0] in [x for xs in swaps.values() for x in xs]:
            return None
        single = [xs[0] for xs in swaps.values() if len(xs) == 1]
        moved = len(single) == 2 and (self.inserts(*single) or self.inserts(*single[::-1]))
        for bn, xs in swaps.items():
            if not fn.dominates(h, bn) or bn in fn.loops[h]:
                return None
            if moved and len(xs) == 1:
                continue
            if len(xs) != 2:
                return None
            at = fn.f.blocks[bn].instrs.index
            src = []
            for x in xs:
                d = fn.f.defs.get(x.ops[0][1]) if x.ops[0][0] == 'loc' else None
                while d is not None and d.op in ('zext', 'trunc', 'freeze'):
                    d = fn.f.defs.get(d.ops[0][1]) if d.ops[0][0] == 'loc' else None
                if d is None or d.op != 'load' or d.block.name != bn or at(d) > min(at(y) for y in xs):
                    return None
                src.append(fn.val(d.ops[0]))
            dst = [fn.val(x.ops[1]) for x in xs]
            if src != dst[::-1]:
                return None
        for r in self.reads.get(base, []):
            if r.block.name in fn.loops[h] or not fn.dominates(h, r.block.name):
                return None
        return ('perm', h, B)

    def inserts(self, shift, put):
        """an element is taken out, those next to it move up in a loop, and it is put where the last one left"""
        fn = self.fn
        h = self.innermost(shift)
        outer = [g for g in fn.loops if h in fn.loops[g] and g != h] if h else ()
        if not outer or put.block.name in fn.loops[h]:
            return False
        g = min(outer, key=lambda x: len(fn.loops[x]))
        if put.block.name not in fn.loops[g] or not fn.dominates(h, put.block.name):
            return False
        for l, hh in fn.backedges:
            if hh == h and not fn.dominates(shift.block.name, l) or hh == g and not fn.dominates(put.block.name, l):
                return False
        if any(s.name not in fn.loops[h] and fn.dominates(shift.block.name, b) for b in fn.loops[h] for s in fn.succ(fn.f.blocks[b])):
            return False

        def taken(x):
            d = fn.f.defs.get(x.ops[0][1]) if x.ops[0][0] == 'loc' else None
            while d is not None and d.op in ('zext', 'trunc', 'freeze'):
                d = fn.f.defs.get(d.ops[0][1]) if d.ops[0][0] == 'loc' else None
            return d if d is not None and d.op == 'load' else None
        a, b = taken(shift), taken(put)
        if a is None or b is None or a.block.name not in fn.loops[h] or a.block is shift.block and \
                a.block.instrs.index(a) > a.block.instrs.index(shift) or b.block.name in fn.loops[h] or \
                b.block.name not in fn.loops[g] or not fn.dominates(b.block.name, h):
            return False
        k = poly(fn.ivinfo[h]['k'])

        def plain(p):
            for x in p.atoms():
                if x[0] in ('zext', 'trunc'):
                    return plain(p.subst(x, poly(x[2])))
            return p
        to, frm, start, end = [plain(fn.val(x)) for x in (shift.ops[1], a.ops[0], b.ops[0], put.ops[1])]
        return any(to == start + k * s and frm == start + (k + 1) * s and end == to for s in (1, -1))

    # ---- applied to expressions
    def resolve(self, e):
        """e with the contents of local arrays put in, and inputs named by their place"""
        return emap(self.binders(e, {}), self.name, self.gname)

    def name(self, p):
        for a in sorted(all_atoms(p), key=lambda x: len(repr(x))):
            if a[0] == 'ld' and a in all_atoms(p):
                b = self.fn.base(a[1])[0]
                if b is not None and b[0] == 'arg' and (not self.written(b) or 'entry' in str(a[3])):
                    p = deep(p, a, poly(('in', deep_name(self, a[1]), a[2])))
        return p

    def gname(self, g):
        out = set()
        for l, pol in g:
            if l[0] in ('eq', 'ge'):
                q = self.name(l[1])
                r = Eq(q) if l[0] == 'eq' else Ge(q)
                if r is True or r is False:
                    out.add((('const', r), pol))
                elif r[0] == 'lit':
                    out.add((r[1], r[2] == pol))
                else:
                    out.add((('c', r), pol))
            else:
                out.add((l, pol))
        return frozenset(out)

    def binders(self, e, ctx):
        if e is None:
            return None
        out = ZERO_
        for m, c in e:
            r = const(c)
            for a, x in m:
                r = times(r, power(self.atom(a, ctx), self.loads(x, ctx)))
            out = plus(out, r)
        return out

    def atom(self, a, ctx):
        if a[0] == 'a':
            return num(self.loads(poly(a[1]), ctx))
        if a[0] == 'v':
            return atom(('v', a[1], self.loads(a[2], ctx), a[3]))
        if a[0] == 'x':
            return self.binders(a[1], ctx)
        if a[0] in ('S', 'P'):
            n = self.loads(a[1], ctx)
            kb = ('bv', 'r', a[4], len(ctx))
            body = esub(a[3], ('kb', a[4]), poly(kb))
            gs = gsub(a[2], ('kb', a[4]), poly(kb))
            # over a permutation of the places: over the places
            ps = {y for y in atoms_of((body, gs)) if y[0] == 'ld' and self.fn.base(y[1])[1] == poly(kb)
                  and (self.of(self.fn.base(y[1])[0]) or ' ')[0] == 'perm'}
            if len(ps) == 1:
                p = next(iter(ps))
                r = self.of(self.fn.base(p[1])[0])
                if self.count(r[1], r[2], n):
                    t = ('bv', 'p', a[4], len(ctx))
                    b2, g2 = esub(body, p, poly(t)), gsub(gs, p, poly(t))
                    if not has((b2, g2), kb):
                        body, gs, kb = b2, g2, t
            c2 = dict(ctx)
            c2[kb] = n
            body = self.binders(body, c2)
            gs = frozenset(l for l in (self.glit(l, c2) for l in gs))
            return bind(a[0], kb, n, gs, body)
        return atom(a)

    def glit(self, l, ctx):
        x, pol = l
        if x[0] in ('eq', 'ge'):
            q = self.loads(x[1], ctx)
            if q != x[1]:
                r = Eq(q) if x[0] == 'eq' else Ge(q)
                if r is True or r is False:
                    return (('const', r), pol)
                if r[0] == 'lit':
                    return (r[1], r[2] == pol)
                return (('c', r), pol)
        return l

    def loads(self, p, ctx):
        """p with elements of filled arrays replaced by what they hold"""
        for _ in range(8):
            for a in all_atoms(p):
                if a[0] != 'ld' or a[2] != 1:
                    continue
                b, o = self.fn.base(a[1])
                r = self.of(b)
                k = o.single()
                if r and r[0] == 'fill' and k in ctx and self.count(r[1], r[2], ctx[k]):
                    p = deep(p, a, deep(r[4], r[3], poly(k)))
                    break
            else:
                return p
        return p


def deep_name(A, addr):
    return A.name(addr)


def atoms_of(x):
    out = set()
    if isinstance(x, Poly):
        return set(all_atoms(x))
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            if isinstance(y, (tuple, Poly, frozenset)):
                out |= atoms_of(y)
    return out


# ---------------------------------------------------------------- results of functions
class Result:
    """what an exported function leaves in its outputs, for every way it returns"""

    def __init__(self, fn):
        self.fn = fn
        self.ring = Ring(fn)
        self.arrays = Arrays(fn, self.ring)

    def src(self, addr):
        """the 32 bytes the caller passed at addr"""
        b, off = self.fn.base(addr)
        return atom(('v', b, off, 0))

    def returned(self, ins, g, env):
        if not ins.ops:
            return ZERO
        v = self.fn.val(ins.ops[0], self.fn.f.ret if hasattr(self.fn.f, 'ret') else ('i', 32))
        for _ in range(8):
            a = v.single()
            if a is None:
                break
            if a[0] == 'phi' and env.get(('phi', a)) is not None and env[('phi', a)] != v:
                v = poly(env[('phi', a)])
            elif a[0] == 'ite' and contradict(g, frozenset(literals(a[1]))):
                v = poly(a[3])
            elif a[0] == 'ite' and contradict(g, frozenset(literals(Not(a[1])))):
                v = poly(a[2])
            else:
                break
        return v

    def successes(self):
        """[(where, guards, env)] of the returns that may report success"""
        out = []
        for ins, g, env in self.ring.ends:
            v = self.returned(ins, g, env)
            c = Eq(v)
            if c is False or c is not True and contradict(g, frozenset(literals(c))):
                continue
            out.append((self.fn.where(ins), g, env))
        return out

    def failures(self):
        out = []
        for ins, g, env in self.ring.ends:
            c = Not(Eq(self.returned(ins, g, env)))
            if c is False or c is not True and contradict(g, frozenset(literals(c))):
                continue
            out.append((self.fn.where(ins), g, env))
        return out

    def tidy(self, e, g=frozenset()):
        e = self.arrays.resolve(absorb(e))
        for l, pol in g:
            if l[0] == 'eq' and pol:
                for a in l[1].atoms():
                    if a[0] == 'arg' and abs(l[1].coef(a)) == 1 and (l[1] - poly(a) * l[1].coef(a)).const() is not None:
                        e = esub(e, a, (poly(a) * l[1].coef(a) - l[1]) * l[1].coef(a))
        return absorb(e)

    def value(self, env, addr, g=frozenset()):
        return self.tidy(self.ring.read(env, addr), g)

    def same(self, x, y, g=frozenset()):
        x, y = self.tidy(x, g), self.tidy(y, g)
        return x is not None and x == y


def lagrange(index, count, elem):
    """the coefficient of index for interpolation at 0 over elem(0) .. elem(count - 1)"""
    k = ('bv', 'lagrange')
    e = num(elem(poly(k)))
    d = Eq(elem(poly(k)), index)
    g = frozenset({(d[1], not d[2])})
    return times(bind('P', k, count, g, e), power(bind('P', k, count, g, minus(e, num(index))), -1))


def total(count, body):
    k = ('bv', 'total')
    return bind('S', k, count, frozenset(), body(poly(k)))


def cell(addr, size=1):
    """the number the caller passed in memory at addr"""
    return poly(('in', addr, size))


def parts(e):
    """the atoms of an expression, those under sums and products included"""
    out = set()
    for m, c in e or ():
        for a, x in m:
            out.add(a)
            if a[0] == 'x':
                out |= parts(a[1])
            elif a[0] in ('S', 'P'):
                out |= parts(a[3])
    return out
