"""Contents of memory as terms: which cryptographic operation on which inputs every range of bytes holds.

A value is a sequence of segments (source, offset, length).  A source is ('const', bytes), ('fill', byte), ('v', number),
('in', base) for what memory held on entry, ('unknown', ...) or an operation on values.  The map from addresses to segments
is kept as must-tags of the fact dataflow; joins keep what both sides agree on."""
from common import *
import flow
from flow import Facts, State

HASHING = {p + s: s for p in ('crypto_generichash_', 'crypto_generichash_blake2b_') for s in ('init', 'update', 'final')}
ONESHOT = ('crypto_generichash', 'crypto_generichash_blake2b')
EFFECTS = {
    'crypto_scalarmult': [(0, 32)], 'crypto_scalarmult_base': [(0, 32)],
    'crypto_scalarmult_curve25519': [(0, 32)], 'crypto_scalarmult_curve25519_base': [(0, 32)],
    'Noise_XK_hmac': [(0, 64)],
    'crypto_aead_chacha20poly1305_ietf_encrypt': [(0, None), (1, 8)],
    'crypto_aead_chacha20poly1305_ietf_decrypt': [(0, None), (1, 8)],
    'strlen': [], 'strnlen': [], 'memcmp': [], 'sodium_memcmp': [], 'free': [], 'sodium_free': [], 'calloc': [], 'malloc': [], 'exit': [],
}


def cut(seg, off, n):
    s, o, _ = seg
    if s[0] == 'const' and isinstance(off, int) and isinstance(n, int):
        return (('const', s[1][off:off + n]), 0, n)
    if s[0] == 'fill':
        return (s, 0, n)
    return (s, add(o, off), n)


def add(a, b):
    r = poly(a) + poly(b)
    return r.const() if r.const() is not None else r


def normal(segs):
    out = []
    for s, o, n in segs:
        if n == 0:
            continue
        if s[0] == 'fill' and isinstance(n, int) and n <= 4096:
            s, o = ('const', bytes([s[1]]) * n), 0
        if s[0] == 'v' and isinstance(n, int) and isinstance(o, int) and s[1].const() is not None and s[2] <= 8:
            s, o = ('const', (s[1].const() % 2 ** (8 * s[2])).to_bytes(s[2], 'little')[o:o + n]), 0
        if out:
            q, p, m = out[-1]
            if q[0] == 'const' and s[0] == 'const':
                out[-1] = (('const', q[1] + s[1]), 0, m + n)
                continue
            if q == s and add(p, m) == o and s[0] not in ('unknown',):
                out[-1] = (q, p, add(m, n))
                continue
        out.append((s, o, n))
    return tuple(out)


COMPARE = {'Noise_XK_lbytes_eq': (0, 1, 2, False), 'memcmp': (2, 0, 1, True), 'sodium_memcmp': (2, 0, 1, True), 'bcmp': (2, 0, 1, True)}


class Walk(Facts):
    """fact dataflow in which what is known of the next element becomes known of the place a loop stands at"""

    def impossible(self, st):
        """a pointer is said to be null and to be one that is not"""
        for l, pol in st.facts:
            if pol and l[0] == 'eq' and len(l[1].t) == 2 and not l[1].c0():
                x, y = (poly(m[0]) for m, _ in l[1].t)
                hx, hy = st.holds(Eq(x)), st.holds(Eq(y))
                if hx is not None and hy is not None and hx != hy and l[1] in (x - y, y - x):
                    return True
        return False

    def _edge(self, b, s, st):
        if self.impossible(st):
            return None
        st = self.terms.compared(st)
        r = Facts._edge(self, b, s, st)
        if r is None or s.name not in self.fn.loops:
            return r
        fn = self.fn
        back = (b.name, s.name) in fn.backedges
        facts, must = set(r.facts), set(r.must)
        for ins in s.instrs:
            if ins.op != 'phi':
                break
            if ins.ty[0] != 'ptr' or ins.name in fn.iv:
                continue
            a = fn.val(('loc', ins.name), ins.ty).single()
            o = next((o for o, bn in zip(ins.ops, ins.extra['blocks']) if bn == b.name), None)
            if a is None or a[0] != 'phi' or o is None or o[0] != 'loc':
                continue
            raw = fn.val(o, ins.ty)
            qs = {raw.single(), poly(self.terms.num(st, raw)).single()} - {None}
            for l, pol in st.facts:
                # and what it was merged from
                if pol and l[0] == 'eq' and abs(l[1].coef(raw.single()) if raw.single() else 0) == 1:
                    q = raw - l[1] * l[1].coef(raw.single())
                    qs |= {q.single(), poly(self.terms.num(st, q)).single()} - {None}
            new = ('next', ins.name)
            for have, out in ((st.facts, facts), (st.must, must)):
                for f in have:
                    if out is must and f[0] not in ('same', 'differ', 'of'):
                        continue
                    g = f
                    for q in sorted(qs, key=str):
                        g = renamed(g, q, poly(new))
                    if g != f and not (back and fn.variant_in(g, s.name)):
                        g = renamed(g, new, poly(a))
                        if out is must and f[0] != 'of':
                            g = g[:-1] + (tuple(sorted(g[-1], key=str)),)
                        if g != (('eq', poly(0)), True):
                            out.add(g)
        return State(frozenset(facts), frozenset(must), r.may)


def renamed(x, a, p):
    if isinstance(x, Poly):
        return deep(x, a, p)
    if isinstance(x, tuple):
        return tuple(p.single() if y == a and p.single() else renamed(y, a, p) for y in x)
    return x


class Terms:
    def __init__(self, fn, init=State(), track=None, hook=None, walk=False):
        self.fn = fn
        self.walk = walk
        self.extra = hook
        self.sums = {h: x for h, x in ((h, self.summary(h)) for h in fn.loops) if x}
        self.inside = {st.uid for x in self.sums.values() for st, *_ in x}
        self.elements = set()
        for b in fn.rpo if walk else ():
            for ins in b.instrs:
                if ins.op == 'phi' and ins.ty[0] == 'ptr' and ins.name not in fn.iv:
                    me = fn.val(('loc', ins.name), ins.ty)
                    vs = [fn.val(o, ins.ty) for o, bn in zip(ins.ops, ins.extra['blocks']) if o[0] != 'undef' and bn in fn.alive]
                    if b.name in fn.loops:
                        self.elements |= {v.single() for v in vs + [me]} - {None}
                    elif ZERO in vs:
                        self.elements |= {me.single()} - {None}
        F = Walk.__new__(Walk) if walk else Facts.__new__(Facts)
        F.terms = self
        F.__init__(fn, self.hook, track or self.history, init, self.enter)
        self.F = F

    def history(self, st):
        """ways that differ in the cryptographic operations made are kept apart"""
        k = frozenset(t for t in st.must if t[0] == 'did')
        if self.walk:
            # and those on which different things are known of an element
            k |= {t for t in st.must if t[0] == 'same' and not self.elements.isdisjoint(all_atoms(t))}
            k |= {f for f in st.facts if not self.elements.isdisjoint(all_atoms(f))}
        return k

    def compared(self, st):
        """comparisons whose outcome is known by now"""
        new = set()
        for t in st.must:
            if t[0] == 'cmp':
                h = st.holds(Eq(t[2]))
                if h is not None:
                    new.add(('same' if h == t[3] else 'differ',) + t[4:])
        return st if new <= st.must else State(st.facts, st.must | new, st.may)

    # ------------------------------------------------------------ loops over bytes
    def summary(self, h):
        """stores of a loop that fills, copies or masks ranges one element after the other: [(store, to, from, mask, length)]"""
        fn = self.fn
        body = fn.loops[h]
        k = fn.ivinfo[h]['k']
        n = self.trips(h)
        if n is None:
            return None
        out = []
        for bn in body:
            if bn in fn.loops and bn != h:
                return None
            for ins in fn.f.blocks[bn].instrs:
                if ins.op == 'call' and fn.writes_of(ins):
                    return None
                if ins.op != 'store':
                    continue
                z = fn.mod.types.size(ins.extra['ty'])
                a = fn.val(ins.ops[1])
                if a.coef(k) != z or fn.variant_in(a - poly(k) * z, h) or not self.everytime(h, bn):
                    return None
                src, mask = self.origin(ins.ops[0])
                if src is None:
                    return None
                if isinstance(src, int):
                    if z != 1:
                        return None
                    out.append((ins, a - poly(k), src, 0, n))
                    continue
                b = fn.val(src.ops[0])
                if b.coef(k) != z or fn.variant_in(b - poly(k) * z, h) or mask and z != 1 or fn.mod.types.size(src.ty) != z:
                    return None
                out.append((ins, a - poly(k) * z, b - poly(k) * z, mask, n * z))
        to = {fn.base(x[1])[0] for x in out}
        if None in to or len(to) < len(out):
            return None
        if any(isinstance(x[2], Poly) and x[2] != x[1] and fn.base(x[2])[0] in to for x in out):
            return None
        return out

    def everytime(self, h, bn):
        fn = self.fn
        return all(fn.dominates(bn, l) for l, hh in fn.backedges if hh == h)

    def origin(self, o):
        """(load or constant, mask) a stored byte comes from"""
        mask = 0
        for _ in range(12):
            if o[0] == 'c':
                return (o[1] ^ mask) % 256, 0
            d = self.fn.f.defs.get(o[1]) if o[0] == 'loc' else None
            if d is None:
                return None, 0
            if d.op == 'load':
                return d, mask
            if d.op in ('zext', 'trunc', 'freeze'):
                o = d.ops[0]
            elif d.op == 'xor' and d.ops[1][0] == 'c':
                mask ^= d.ops[1][1] % 256
                o = d.ops[0]
            else:
                return None, 0
        return None, 0

    def trips(self, h):
        """how often the loop is gone through, where only one test ends it"""
        fn = self.fn
        body = fn.loops[h]
        k = fn.ivinfo[h]['k']
        outs = [(b, s) for b in fn.rpo if b.name in body for s in fn.succ(b) if s.name not in body]
        if len(outs) != 1:
            return None
        b, s = outs[0]
        latch = b.name != h
        if latch and not ((b.name, h) in fn.backedges and sum(1 for _, x in fn.backedges if x == h) == 1):
            return None
        if not latch and (b.name, h) in fn.backedges:
            latch = True
        stay = next((x for x in fn.succ(b) if x.name in body), None)
        for l, pol in flow.literals(fn.edge_cond(b, stay)):
            if l[0] in ('ult', 'slt'):
                l = (('eq', l[2]), pol) if l[1] == ZERO and pol else (('ge', l[2] - l[1] - 1), pol)
                l, pol = (l[0], False) if l[0][0] == 'eq' else l
            if l[0] not in ('ge', 'eq'):
                continue
            c = l[1].coef(k)
            rest = l[1] - poly(k) * c
            if fn.variant_in(rest, h):
                continue
            if pol and l[0] == 'ge' and c == -1:
                return rest + (2 if latch else 1)
            if not pol and l[0] == 'eq' and abs(c) == 1:
                return rest * -c + (1 if latch else 0)
        return None

    def enter(self, st, b, s):
        """the whole effect of such a loop, when it is entered"""
        if s.name in self.sums and b.name not in self.fn.loops[s.name]:
            vals = []
            for ins, to, src, mask, n in self.sums[s.name]:
                m = self.num(st, n)
                if isinstance(m, int) and m <= 0:
                    continue
                if isinstance(src, int):
                    v = normal(((('fill', src), 0, m),))
                else:
                    v = self.read(st, src, m)
                    if mask:
                        if len(v) == 1 and v[0][0][0] == 'xor' and v[0][1] == 0:
                            v = ((('xor', v[0][0][1] ^ mask, v[0][0][2]), 0, m),)
                        else:
                            v = ((('xor', mask, v), 0, m),)
                vals.append((to, m, v))
            for to, m, v in vals:
                st = self.write(st, to, m, v)
        return st

    # ------------------------------------------------------------ numbers
    def num(self, st, p):
        """p by the facts, as an int where it is one"""
        p = st.resolve(poly(p))
        got = [t for t in st.must if t[0] == 'ldv'] if self.walk else ()
        for _ in range(6 if self.walk else 3):
            q = whole(self.plain(st, self.follow(st, p)))
            for t in got:
                q = deep(q, t[1], t[2])
            if q == p:
                break
            p = q
        c = p.const()
        return c if c is not None else p

    def plain(self, st, p):
        for x in list(p.atoms()):
            if x[0] == 'zext':
                y = self.plain(st, x[2])
                if self.ge0(st, y) and self.ge0(st, poly(2 ** x[1] - 1) - y):
                    p = p + (y - poly(x)) * p.coef(x)
        return p

    def ge0(self, st, p):
        return prange(p)[0] >= 0 or st.holds(Ge(p)) is True or prove(st.facts, p)

    def follow(self, st, p):
        """merged values replaced by what they are here"""
        eqs = None
        for _ in range(6):
            ph = sorted((a for a in all_atoms(p) if a[0] == 'phi' and a[2] not in self.fn.iv and not self.carried(a)), key=str)
            if not ph:
                return p
            if eqs is None:
                eqs = {}
                for l, pol in st.facts:
                    if pol and l[0] == 'eq':
                        for a in l[1].aset():
                            if a[0] == 'phi' and abs(l[1].coef(a)) == 1:
                                eqs.setdefault(a, []).append(poly(a) - l[1] * l[1].coef(a))
            q = p
            for a in ph:
                v = self.settle(a, eqs)
                if v is not None:
                    q = deep(q, a, v)
            if q == p:
                return p
            p = q
        return p

    def carried(self, a, seen=None):
        """a stands for a place reached by a loop: it is one thing however many rounds were made"""
        seen = set() if seen is None else seen
        d = self.fn.f.defs.get(a[2]) if a[0] == 'phi' else None
        if d is None or a in seen:
            return False
        seen.add(a)
        if d.block.name in self.fn.loops:
            return True
        return any(x[0] == 'phi' and self.carried(x, seen) for o, bn in zip(d.ops, d.extra['blocks']) if bn in self.fn.alive and o[0] == 'loc'
                   for x in self.fn.val(o, d.ty).atoms())

    def settle(self, a, eqs):
        """a value without merges that equals a"""
        seen, todo = {a}, [poly(a)]
        while todo:
            p = todo.pop(0)
            x = next((x for x in all_atoms(p) if x[0] == 'phi' and x in eqs), None)
            for q in sorted(eqs.get(x, ()), key=str):
                r = whole(deep(p, x, q))
                ph = [y for y in all_atoms(r) if y[0] == 'phi' and y[2] not in self.fn.iv and not (self.walk and self.carried(y))]
                if not ph:
                    return r
                if len(ph) == 1 and ph[0] not in seen:
                    seen.add(ph[0])
                    todo.append(r)
        return None

    # ------------------------------------------------------------ memory
    def tags(self, st, base):
        return [t for t in st.must if t[0] == 'm' and t[1] == base]

    def where(self, st, addr):
        a = self.num(st, addr)
        return (self.fn.base(poly(a)))

    def kill(self, st, base, off, n):
        """forget what [off, off+n) of base held; n None: everything from anywhere"""
        must = set(st.must)
        for t in list(must):
            if t[0] == 'hs' and t[1] == base:
                must.discard(t)
            if t[0] != 'm' or t[1] != base:
                continue
            _, _, o, seg = t
            if n is not None and self.apart(st, o, seg[2], off, n):
                continue
            must.discard(t)
            if n is None:
                continue
            d = (poly(off) - poly(o)).const()
            if d is not None and d > 0 and (isinstance(seg[2], int) and d < seg[2] or not isinstance(seg[2], int)):
                must.add(('m', base, o, cut(seg, 0, d)))
            e = add(off, n)
            x = (poly(o) + poly(seg[2]) - poly(e)).const()
            y = (poly(e) - poly(o)).const()
            if x is not None and x > 0 and y is not None and y >= 0:
                must.add(('m', base, poly(e), cut(seg, y, x)))
        return State(st.facts, frozenset(must), st.may | {('w', base, poly(off), n)})

    def apart(self, st, o, m, off, n):
        o, m, off, n = poly(o), poly(m), poly(off), poly(n)
        return self.ge0(st, off - o - m) or self.ge0(st, o - off - n)

    def write(self, st, addr, n, segs):
        base, off = self.where(st, addr)
        if base is None:
            # nothing is written where there is nothing
            return st if off == ZERO else self.havoc(st)
        n = self.num(st, n)
        if n == 0:
            return st
        st = self.forget(st, base, off, n)
        must = set(st.must)
        o = off
        for s, so, m in segs:
            must.add(('m', base, poly(o), (s, so, m)))
            o = poly(add(o, m))
        return State(st.facts, frozenset(must), st.may)

    def forget(self, st, base, off, n):
        if base[0] == 'phi':
            # which object this is is not known here
            for b in self.objects(base):
                if b != base:
                    st = self.kill(st, b, ZERO, None) if b is not None else self.havoc(st)
        return self.kill(st, base, off, n)

    def objects(self, a, seen=None):
        """the objects a merged pointer may point into"""
        seen = set() if seen is None else seen
        if a in seen:
            return set()
        seen.add(a)
        d = self.fn.f.defs.get(a[2]) if a[0] == 'phi' else None
        if d is None:
            return {a}
        out = set()
        for o, bn in zip(d.ops, d.extra['blocks']):
            if bn in self.fn.alive and o[0] != 'undef':
                p = self.fn.val(o, d.ty)
                if p != ZERO:
                    b = self.fn.base(p)[0]
                    out |= {None} if b is None else self.objects(b, seen)
        return out

    def havoc(self, st):
        return State(st.facts, frozenset(t for t in st.must if t[0] not in ('m', 'hs')), st.may | {('w', None, ZERO, None)})

    def read(self, st, addr, n):
        base, off = self.where(st, addr)
        n = self.num(st, n)
        if n == 0:
            return ()
        if base is None:
            return ((('unknown', 'address', addr), 0, n),)
        out = []
        o = off
        left = n
        ts = self.tags(st, base)
        for _ in range(64):
            if left == 0:
                break
            hit = None
            for _, _, to, seg in ts:
                d = (o - to).const()
                if d is None or d < 0:
                    continue
                rest = self.num(st, poly(seg[2]) - d)
                if isinstance(rest, int) and rest <= 0:
                    continue
                if not isinstance(rest, int) and d and not self.ge0(st, rest - 1):
                    continue
                if rest == left or self.ge0(st, poly(rest) - left):
                    hit = cut(seg, d, left)
                    break
                if self.ge0(st, poly(left) - rest):
                    hit = cut(seg, d, rest)
                    break
            if hit is None:
                # up to the next written range, what was there on entry
                m = left
                for _, _, to, seg in ts:
                    d = self.num(st, to - o)
                    if isinstance(d, int) and d > 0 and (isinstance(m, int) and d < m or not isinstance(m, int) and self.ge0(st, poly(m) - d)):
                        m = d
                if any(t[0] == 'w' and (t[1] is None or t[1] == base and (t[3] is None or not self.apart(st, o, m, t[2], t[3]))) for t in st.may):
                    hit = (('unknown', base, o), 0, m)
                elif base[0] == 'glob' and isinstance(m, int) and self.const(base, o, m) is not None:
                    hit = (('const', self.const(base, o, m)), 0, m)
                else:
                    hit = (('in', base), self.num(st, o), m)
            out.append(hit)
            o = o + poly(hit[2])
            left = self.num(st, poly(left) - poly(hit[2]))
        return normal(out)

    def const(self, base, off, n):
        o = off.const()
        if o is None:
            return None
        try:
            bs = self.fn.globbytes(poly(base) + o)
        except Exception:
            bs = None
        return bs[:n] if bs is not None and len(bs) >= n else None

    def number(self, st, addr, n, ptr=False):
        """the number a cell holds, None if not known"""
        r = self.read(st, addr, n)
        if len(r) != 1:
            return None
        s, o, m = r[0]
        if s[0] == 'v' and o == 0 and s[2] == n:
            return poly(self.num(st, s[1]))
        if s[0] == 'const':
            return poly(int.from_bytes(s[1], 'little'))
        if s[0] == 'in':
            return poly(('ld', poly(s[1]) + poly(o), n, None, ptr))
        return None

    # ------------------------------------------------------------ instructions
    def hook(self, st, ins):
        fn = self.fn
        if self.walk:
            st = self.touched(st, ins)
        if ins.op == 'store' and ins.uid not in self.inside:
            a = fn.val(ins.ops[1])
            n = fn.mod.types.size(ins.extra['ty'])
            t = ins.extra['ty']
            v = self.num(st, fn.val(ins.ops[0], t)) if t[0] in ('i', 'ptr') else None
            if v is None:
                st = self.write(st, a, n, ((('unknown', ins.uid), 0, n),))
            else:
                st = self.write(st, a, n, normal(((('v', poly(v), n), 0, n),)))
        elif self.walk and ins.op == 'load' and ins.ty[0] in ('i', 'ptr'):
            a = fn.val(('loc', ins.name), ins.ty).single()
            if a is not None and a[0] == 'ld':
                v = self.number(st, fn.val(ins.ops[0]), fn.mod.types.size(ins.ty), ins.ty[0] == 'ptr')
                must = frozenset(t for t in st.must if t[0] != 'ldv' or t[1] != a)
                if v is not None and v.single() != a and a not in all_atoms(v):
                    must |= {('ldv', a, v)}
                st = State(st.facts, must, st.may)
        elif self.walk and ins.op == 'call' and ins.callee in COMPARE:
            k, x, y, zero = COMPARE[ins.callee]
            g = fn.args(ins)
            r = fn.val(('loc', ins.name), ins.ty)
            must = frozenset(t for t in st.must if t[:2] != ('cmp', ins.uid))
            st = State(st.facts, must | {('cmp', ins.uid, r, zero, self.num(st, g[k]), tuple(sorted((self.read(st, g[x], g[k]), self.read(st, g[y], g[k])), key=str)))}, st.may)
        elif ins.op == 'call' and ins.callee is not None:
            st = self.call(st, ins)
            if any(x in ins.callee for x in ('crypto_', 'hmac')):
                st = st.add(('did', ins.uid))
        if self.extra and st is not None:
            st = self.extra(self, st, ins)
        return st

    def touched(self, st, ins):
        """what is read or written is there"""
        fn = self.fn
        at = ()
        if ins.op == 'load':
            at = ins.ops[:1]
        elif ins.op == 'store':
            at = ins.ops[1:2]
        elif ins.op == 'call' and (ins.callee or '').startswith(('llvm.memcpy', 'llvm.memmove')) and (fn.args(ins)[2].const() or 0) > 0:
            at = ins.ops[:2]
        for o in at:
            b = fn.base(fn.val(o))[0]
            if b is not None and b[0] == 'ld' and not self.elements.isdisjoint(all_atoms(b)) and st.holds(Eq(poly(b))) is None:
                st = flow.assume(st, Not(Eq(poly(b)))) or st
        return st

    def call(self, st, ins):
        fn = self.fn
        c = ins.callee
        if c in fn.logonly or c in ('fprintf', 'printf', 'vfprintf', 'puts', 'putchar', 'fputs'):
            return st
        for p in ('memcpy', 'memmove', 'memset'):
            if c.startswith('llvm.' + p):
                c = p
        if c.startswith('llvm.'):
            return st
        a = fn.args(ins)

        if c in ('free', 'sodium_free'):
            b = self.where(st, a[0])[0]
            return self.forget(st, b, ZERO, None) if b is not None else st
        if c in ('memcpy', 'memmove'):
            return self.write(st, a[0], a[2], self.read(st, a[1], a[2]))
        if c == 'memset':
            v = self.num(st, a[1])
            n = self.num(st, a[2])
            return self.write(st, a[0], n, normal(((('fill', v % 256) if isinstance(v, int) else ('unknown', ins.uid), 0, n),)))
        if c == 'sodium_memzero':
            n = self.num(st, a[1])
            return self.write(st, a[0], n, normal(((('fill', 0), 0, n),)))
        if c in ('calloc', 'malloc', 'sodium_malloc'):
            b = fn.base(fn.val(('loc', ins.name), ins.ty))[0]
            if b is not None:
                n = self.num(st, a[0] * a[1] if c == 'calloc' else a[0])
                st = self.kill(st, b, ZERO, None)
                return self.write(st, poly(b), n, normal(((('fill', 0) if c == 'calloc' else ('unknown', ins.uid), 0, n),)))
            return st
        if c == 'randombytes_buf':
            n = self.num(st, a[1])
            return self.write(st, a[0], n, ((('random', ins.uid), 0, n),))
        if c in ('crypto_scalarmult_base', 'crypto_scalarmult_curve25519_base'):
            return self.write(st, a[0], 32, ((('pub', self.read(st, a[1], 32)), 0, 32),))
        if c in ('crypto_scalarmult', 'crypto_scalarmult_curve25519'):
            return self.write(st, a[0], 32, ((('dh', self.read(st, a[1], 32), self.read(st, a[2], 32)), 0, 32),))
        if c == 'Noise_XK_hmac':
            return self.write(st, a[0], 64, ((('hmac', self.read(st, a[2], a[1]), self.read(st, a[4], a[3])), 0, 64),))
        if c in ONESHOT:
            n = self.num(st, a[1])
            return self.write(st, a[0], n, ((('hash', n, self.read(st, a[4], a[5]), self.read(st, a[2], a[3])), 0, n),))
        if c in HASHING:
            base, off = self.where(st, a[0])
            if base is None:
                return self.havoc(st)
            cur = next((t for t in st.must if t[0] == 'hs' and t[1] == base), None)
            k = HASHING[c]
            if k == 'init':
                new = (self.read(st, a[1], a[2]), self.num(st, a[3]), ())
                st = self.kill(st, base, ZERO, None)
                return State(st.facts, st.must | {('hs', base, new)}, st.may)
            if k == 'update':
                if cur is None:
                    return st
                key, n, segs = cur[2]
                new = (key, n, normal(segs + self.read(st, a[1], a[2])))
                return State(st.facts, (st.must - {cur}) | {('hs', base, new)}, st.may)
            n = self.num(st, a[2])
            t = ('unknown', ins.uid)
            if cur is not None and cur[2][1] == n:
                t = ('hash', n, cur[2][0], cur[2][2])
            st = self.kill(st, base, ZERO, None)
            return self.write(st, a[1], n, ((t, 0, n),))
        if c.endswith('_encrypt') and 'chacha20poly1305_ietf' in c:
            n = self.num(st, a[3])
            t = ('aead', self.read(st, a[8], 32), self.read(st, a[7], 12), self.read(st, a[4], a[5]), self.read(st, a[2], n))
            m = add(n, 16)
            if self.num(st, a[1]) != 0:
                st = self.write(st, a[1], 8, ((('v', poly(m), 8), 0, 8),))
            return self.write(st, a[0], m, ((t, 0, m),))
        if c.endswith('_decrypt') and 'chacha20poly1305_ietf' in c:
            n = self.num(st, a[4])
            t = ('dec', self.read(st, a[8], 32), self.read(st, a[7], 12), self.read(st, a[5], a[6]), self.read(st, a[3], n))
            m = add(n, -16)
            if self.num(st, a[1]) != 0:
                st = self.write(st, a[1], 8, ((('v', poly(m), 8), 0, 8),))
            return self.write(st, a[0], m, ((t, 0, m),))
        for w in fn.writes_of(ins):
            base, off = self.where(st, w[2])
            if base is None:
                st = self.havoc(st)
            else:
                n = None if w[3] is None else self.num(st, w[3])
                st = self.forget(st, base, off, n)
        return st


def whole(p):
    """a number put together again from its low and high parts, folding what is constant"""
    for a in list(p.atoms()):
        r = None
        if a[0] == 'trunc':
            x = whole(a[2])
            c = x.const()
            r = poly(c % 2 ** a[1]) if c is not None else poly(('trunc', a[1], x))
        elif a[0] == 'zext':
            x = whole(a[2])
            r = x if x.const() is not None and x.const() >= 0 else None
        elif a[0] == 'op' and a[1] in ('and', 'or', 'xor', 'lshr', 'shl') and len(a) == 4:
            x, y = whole(poly(a[2])), whole(poly(a[3]))
            cx, cy = x.const(), y.const()
            if a[1] == 'and':
                r = poly(cx & cy) if cx is not None and cy is not None else poly(('op', 'and', x, y))
            elif cy == 0:
                r = x
            elif cx == 0:
                r = y if a[1] in ('or', 'xor') else ZERO
            elif a[1] == 'lshr' and cx is not None and cy is not None and cx >= 0:
                r = poly(cx >> cy)
            else:
                r = poly(('op', a[1], x, y))
        if r is not None and r != poly(a):
            p = p.subst(a, r)
    for a in list(p.atoms()):
        if a[0] == 'trunc' and p.coef(a) == 1:
            x, w = a[2], a[1]
            for h in list(p.atoms()):
                if h[0] == 'trunc' and h[1] + w == 64 and p.coef(h) == 2 ** w and poly(h[2]) == poly(('op', 'lshr', x, poly(w))):
                    return whole(p - poly(a) - poly(h) * 2 ** w + x)
                if h == ('op', 'lshr', x, poly(w)) and p.coef(h) == 2 ** w:
                    return whole(p - poly(a) - poly(h) * 2 ** w + x)
    return p


def show_value(segs, depth=3):
    return ' | '.join(show_seg(s, depth) for s in segs) or 'nothing'


def show_seg(seg, depth):
    s, o, n = seg
    k = s[0]
    if k == 'const':
        t = s[1].hex() if len(s[1]) <= 16 else '%d constant bytes' % len(s[1])
    elif k == 'v':
        t = show(s[1])
    elif k == 'in':
        t = 'old(%s)' % show(poly(s[1]))
    elif depth == 0 or k in ('unknown', 'random', 'fill'):
        t = k
    else:
        t = '%s(%s)' % (k, ', '.join(show_value(x, depth - 1) if isinstance(x, tuple) else str(x) for x in s[1:]))
    return t if o == 0 else '%s at %s' % (t, o if isinstance(o, int) else show(o))
