"""P19 sharing operations terminate and handle every group size"""
TECHNIQUE = 'termination by ranking arguments in machine arithmetic for every counting loop; abstract interpretation of share generation in a domain of polynomials over scalars'
NOTE = 'all loops of all exported functions after inlining, for every value of parameters and fields (group size of a running session at most 128, which P12 decides); share generation for every n and every threshold of at least 1'
import build, ir, sym, flow
from flow import *
from sym import *
from proto import Proto

MUL, ADD = 'crypto_core_ristretto255_scalar_mul', 'crypto_core_ristretto255_scalar_add'
RANDOM = ('crypto_core_ristretto255_scalar_random', 'randombytes_buf', 'debian_rng_scalar')
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


# ---------------------------------------------------------------- termination
def conjuncts(fn, op, pol):
    """comparisons (pred, a, b, type) all of which hold when op has the truth value pol"""
    if op[0] != 'loc':
        return []
    d = fn.f.defs.get(op[1])
    if d is None:
        return []
    if d.op == 'icmp':
        return [(d.extra['pred'] if pol else NEG[d.extra['pred']], d.ops[0], d.ops[1], d.extra['ty'])]
    if d.op == 'xor' and d.ty == ('i', 1):
        for x, y in ((0, 1), (1, 0)):
            if fn.val(d.ops[y], ('i', 1)).const() in (1, -1):
                return conjuncts(fn, d.ops[x], not pol)
        return []
    if d.op == ('and' if pol else 'or'):
        return conjuncts(fn, d.ops[0], pol) + conjuncts(fn, d.ops[1], pol)
    if d.op == 'select' and d.ty == ('i', 1):
        other = d.ops[2] if pol else d.ops[1]
        if fn.val(other, ('i', 1)).const() == (0 if pol else 1) or other == ('int', 0 if pol else 1):
            return conjuncts(fn, d.ops[0], pol) + conjuncts(fn, d.ops[1 if pol else 2], pol)
    if d.op == 'freeze':
        return conjuncts(fn, d.ops[0], pol)
    return []


def steps(fn, h):
    """phi -> set of constant increments over one iteration, for the counters of a loop"""
    out = {}
    for phi, ini, ds in fn.ivinfo[h]['cand']:
        w = width(phi.ty)
        cs = {None if d.const() is None else (d.const() + 2 ** (w - 1)) % 2 ** w - 2 ** (w - 1) for d in ds}
        out[phi.name] = cs if None not in cs else {None}
    return out


def width(ty):
    return 64 if ty[0] == 'ptr' else ty[1]


def image(fn, op, ty, phis, loop, depth=8):
    """(phi, lo, hi): the values op takes while the counter runs through all values of its type"""
    if op[0] != 'loc' or depth == 0:
        return None
    d = fn.f.defs.get(op[1])
    if d is None:
        return None
    if d.op == 'phi' and d.name in phis:
        w = width(d.ty)
        return d, 0, 2 ** w - 1
    if d.block.name not in loop:
        return None
    if d.op in ('zext', 'sext', 'trunc', 'freeze', 'ptrtoint'):
        r = image(fn, d.ops[0], None, phis, loop, depth - 1)
        if r is None:
            return None
        p, lo, hi = r
        src = width(fn.f.defs[d.ops[0][1]].ty)
        if d.op == 'zext' and (lo < 0 or hi >= 2 ** src):
            return p, 0, 2 ** src - 1
        if d.op == 'sext':
            return (p, -2 ** (src - 1), 2 ** (src - 1) - 1) if hi - lo + 1 == 2 ** src or hi >= 2 ** (src - 1) else (p, lo, hi)
        if d.op == 'trunc':
            w = width(d.ty)
            return (p, 0, 2 ** w - 1) if hi - lo + 1 >= 2 ** w else (p, lo, hi)
        return r
    if d.op in ('add', 'sub'):
        for x, y in ((0, 1), (1, 0)):
            if d.op == 'sub' and x == 1:
                continue
            r = image(fn, d.ops[x], None, phis, loop, depth - 1)
            c = fn.val(d.ops[y], d.ty).const()
            if r is None or c is None:
                continue
            if c >= 2 ** (width(d.ty) - 1):
                c -= 2 ** width(d.ty)
            p, lo, hi = r
            if hi - lo + 1 == 2 ** width(d.ty):
                return r                       # all values of the type, only shifted
            s = c if d.op == 'add' else -c
            return p, lo + s, hi + s
    if d.op == 'gep':
        r = image(fn, d.ops[0], None, phis, loop, depth - 1)
        if r is not None and d.ty[0] == 'ptr':
            return r
    return None


def yrange(fn, op, ty, signed, known):
    p = fn.val(op, ty)
    for a in p.aset():
        if a[0] == 'ld' and a[1] in known and abs(p.coef(a)) == 1 and p.t and len([m for m in p.t if m[0] != ()]) == 1:
            c = p.c0()
            lo, hi = known[a[1]]
            return (lo + c, hi + c) if p.coef(a) == 1 else (c - hi, c - lo)
    w = width(ty)
    lo, hi = prange(p)
    tl, th = (-2 ** (w - 1), 2 ** (w - 1) - 1) if signed else (0, 2 ** w - 1)
    if lo < tl or hi > th:
        return tl, th
    return lo, hi


def ends_by(fn, h, at, pred, a, b, ty, phis, known):
    """the comparison, required for going on, fails after finitely many iterations, whatever the bound"""
    loop = fn.loops[h]

    def within(q):
        F = facts_of(fn)
        sts = F.states_before(at)
        return bool(sts) and all(prove(st.facts, q) for st in sts)
    for x, y, pr in ((a, b, pred), (b, a, SWAP[pred])):
        r = image(fn, x, ty, phis, loop)
        if r is None:
            continue
        phi, lo, hi = r
        st = phis[phi.name]
        if None in st or 0 in st or not st:
            continue
        w = width(ty)
        signed = pr[0] == 's'
        if pr in ('eq',):
            return True                        # goes on only while the counter stands still
        if hi - lo + 1 == 2 ** w:
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if signed else (0, 2 ** w - 1)
        elif not signed and lo < 0:
            lo, hi = 0, 2 ** w - 1
        elif signed and hi >= 2 ** (w - 1):
            lo, hi = -2 ** (w - 1), 2 ** (w - 1) - 1
        ylo, yhi = yrange(fn, y, ty, signed, known)
        one = st in ({1}, {-1})
        if phi.ty[0] == 'ptr' or not one:
            # larger steps: may not jump over the end of the type
            if pr in ('ult', 'slt', 'ule', 'sle') and min(st) > 0 and (phi.ty[0] == 'ptr' or yhi + max(st) + 1 <= hi):
                return True
            if pr in ('ugt', 'sgt', 'uge', 'sge') and max(st) < 0 and (phi.ty[0] == 'ptr' or ylo + min(st) - 1 >= lo):
                return True
            if pr == 'ne' and phi.ty[0] == 'ptr':
                return True                    # pointers meet the end of what they run over
            continue
        if pr in ('ult', 'slt') and hi >= yhi or pr in ('ule', 'sle') and hi > yhi \
                or pr in ('ugt', 'sgt') and lo <= ylo or pr in ('uge', 'sge') and lo < ylo \
                or pr == 'ne' and lo <= ylo and yhi <= hi:
            return True
        v = fn.val(y, ty)
        if pr in ('ult', 'slt', 'ule', 'sle') and within(poly(hi) - v - (pr[2] == 'e')) or pr in ('ugt', 'sgt', 'uge', 'sge') and within(v - lo - (pr[2] == 'e')) \
                or pr == 'ne' and within(poly(hi) - v) and within(v - lo):
            return True
    return False


FACTS = {}


def facts_of(fn):
    if fn not in FACTS:
        FACTS[fn] = Facts(fn)
    return FACTS[fn]


def terminates(fn, h, known):
    """None if the loop does not count; else whether some test every iteration passes must fail eventually"""
    phis = steps(fn, h)
    loop = fn.loops[h]
    lats = [b for b, hh in fn.backedges if hh == h]
    for bn in loop:
        b = fn.f.blocks[bn]
        t = b.instrs[-1]
        if not all(fn.dominates(bn, l) for l in lats) or t.op != 'br' or len(t.extra['succ']) != 2:
            continue
        ins = [s for s in fn.succ(b) if s.name in loop]
        if len(ins) != 1 or len(fn.succ(b)) != 2:
            continue
        for pr, x, y, ty in conjuncts(fn, t.ops[0], ins[0].name == t.extra['succ'][0]):
            if ends_by(fn, h, t, pr, x, y, ty, phis, known):
                return True
    return False if phis else None


# ---------------------------------------------------------------- scalars as polynomials
# a scalar is a tuple of terms (source, offset, variable, exponent, binder) or None if unknown: source None is the
# number one, (number,) a small number; a binder (k, count) stands for the sum over k = 0 .. count - 1
def term(src=None, off=ZERO, var=None, e=ZERO, bind=None):
    return (src, off, var, e, bind)


ONE_ = (term(),)


def times(a, b):
    if a is None or b is None:
        return None
    if a == () or b == ():
        return ()
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and x[0][0] is None and x[0][4] is None:
            v, e = x[0][2], x[0][3]
            out = []
            for t in y:
                if t[2] is not None and v is not None and t[2] != v:
                    return None
                out.append((t[0], t[1], v if v is not None else t[2], t[3] + e, t[4]))
            return tuple(out)
    return None


def plus(a, b):
    return None if a is None or b is None else tuple(a) + tuple(b)


def tsubst(t, k, v):
    sb = lambda p: p.subst(k, v) if k in p.aset() else p
    return (t[0], sb(t[1]), sb(t[2]) if t[2] is not None else None, sb(t[3]), (t[4][0], sb(t[4][1])) if t[4] else None)


class Eval:
    def __init__(self, fn):
        self.fn = fn
        self.latch = {}                # loop -> state when an iteration ends

    # a state is a dict (base, offset) -> scalar of 32 bytes
    def read(self, st, addr):
        b, off = self.fn.base(addr)
        v = st.get((b, off), 0)
        if v != 0:
            return v
        if b[0] == 'glob':
            bs = self.fn.globbytes(addr)
            if bs and len(bs) >= 32 and not any(bs[1:32]):
                return () if bs[0] == 0 else ONE_ if bs[0] == 1 else None
            return None
        for (b2, o2), v in st.items():
            if b2 == b and not self.apart(off, o2):
                return None
        return (term(b, off),)

    def apart(self, a, b, na=32, nb=32):
        d = (a - b).const()
        if d is not None:
            return d >= nb or -d >= na
        return self.fn.disjoint(a, na, b, nb)

    def write(self, st, addr, v, n=32):
        b, off = self.fn.base(addr)
        st = dict(st)
        for key in list(st):
            if key[0] == b and key[1] != off and not self.apart(off, key[1], n, 32):
                st[key] = None
        st[(b, off)] = v
        return st

    def step(self, st, ins):
        fn = self.fn
        if ins.op == 'store':
            addr, ty = fn.val(ins.ops[1]), ins.extra['ty']
            b, off = fn.base(addr)
            v = fn.val(ins.ops[0], ty)
            if ty == ('i', 8) and (b, off) in st:
                old = st[(b, off)]
                if old == () or old is not None and len(old) == 1 and old[0][0] is None and old[0][4] is None \
                        and (old[0][2] is None or old[0][3] == ONE):
                    c = v.const()
                    st = dict(st)
                    st[(b, off)] = () if c == 0 else ONE_ if c == 1 else (term(None, ZERO, v, ONE),)
                    return st
            size = fn.mod.types.size(ty)
            st = dict(st)
            for key in list(st):
                if key[0] == b and not self.apart(off, key[1], size, 32):
                    st[key] = None
            return st
        if ins.op != 'call':
            return st
        c = ins.callee
        a = fn.args(ins)
        if c in (MUL, ADD):
            f = times if c == MUL else plus
            return self.write(st, a[0], f(self.read(st, a[1]), self.read(st, a[2])))
        if c in ('memcpy', 'memmove'):
            n = a[2].const()
            if n is not None and n >= 32:
                sb, so = fn.base(a[1])
                inside = [(o - so).const() for (b, o), v in st.items() if b == sb and (o - so).const() is not None]
                inside = [d for d in inside if 0 <= d <= n - 32]
                if n == 32 and not inside:
                    inside = [0]
                vals = [(d, self.read(st, a[1] + d)) for d in inside]
                st = self.kill(st, a[0], n)
                for d, v in vals:
                    st = self.write(st, a[0] + d, v)
                return st
        if c in ('memset', 'sodium_memzero'):
            n = a[2 if c == 'memset' else 1].const()
            if (c != 'memset' or a[1] == ZERO) and n is not None and n >= 32:
                st = self.kill(st, a[0], n)
                if n == 32:
                    st = self.write(st, a[0], ())
                return st
        if c in RANDOM:
            b, off = fn.base(a[0])
            return self.write(st, a[0], (term(b, off),))
        for w in fn.writes_of(ins):
            st = self.kill(st, w[2], w[3], w[1]) if w[2] is not None else {k: (None if k[0] == w[1] else v) for k, v in st.items()}
        return st

    def kill(self, st, addr, n, base=None):
        b, off = self.fn.base(addr)
        n = n.const() if isinstance(n, Poly) else n
        st = dict(st)
        for key in list(st):
            if key[0] == b and (n is None or not self.apart(off, key[1], n, 32)):
                st[key] = None
        return st

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        out = {}
        for k in set(a) | set(b):
            va, vb = a.get(k, 0), b.get(k, 0)
            out[k] = va if va == vb else None
        return out

    def region(self, blocks, entry, st, header=None):
        """abstract effect of an acyclic region with summarised loops; -> {(from, to): state} leaving it or going back"""
        fn = self.fn
        inst = {entry: st}
        out = {}
        inner = {h for h in fn.loops if h in blocks and h != header and
                 not any(h in fn.loops[g] and g != h and g != header and g in blocks for g in fn.loops)}
        owner = {b: h for h in inner for b in fn.loops[h]}

        def flow(b, s, st):
            if s not in blocks or s == header:
                out[(b, s)] = self.join(out.get((b, s)), st)
            else:
                inst[s] = self.join(inst.get(s), st)
        for blk in fn.rpo:
            n = blk.name
            if n not in blocks or n not in inst:
                continue
            if n in owner:
                if n != owner[n]:
                    continue
                for (b, s), st in self.loop(n, inst[n]).items():
                    flow(b, s, st)
                continue
            st = inst[n]
            for ins in blk.instrs:
                st = self.step(st, ins)
            for s in fn.succ(blk):
                flow(n, s.name, st)
        return out

    def count(self, h):
        """iterations of a loop left only through its header test"""
        fn = self.fn
        k = fn.ivinfo[h]['k']
        ex = [(fn.f.blocks[b], s) for b in fn.loops[h] for s in fn.succ(fn.f.blocks[b]) if s.name not in fn.loops[h]]
        if len(ex) > 1:
            # only those that can be taken
            F = facts_of(fn)
            ex = [(b, s) for b, s in ex if any(o is not None and assume(o, fn.edge_cond(b, s)) is not None
                                               for o in (F.transfer(b, st) for st in F.at.get(b.name, {}).values()))]
        if len(ex) != 1 or ex[0][0].name != h:
            return None
        for l, pol in literals(fn.edge_cond(*ex[0])):
            if l[0] == 'ge' and pol and l[1].coef(k) == 1:
                B = poly(k) - l[1]
            elif l[0] == 'eq' and pol and abs(l[1].coef(k)) == 1:
                B = poly(k) - l[1] if l[1].coef(k) == 1 else poly(k) + l[1]
            elif l[0] in ('slt', 'ult') and not pol and l[1].coef(k) == 1:
                B = l[2] - l[1] + poly(k)
            else:
                continue
            if k not in all_atoms(B):
                return B
        return None

    def loop(self, h, st0):
        fn = self.fn
        blocks = fn.loops[h]
        k = fn.ivinfo[h]['k']
        B = self.count(h)
        probe = self.region(blocks, h, {}, h)       # which places change
        keys = set()
        for e, st in probe.items():
            keys |= set(st)
        varying = {key for key in keys if k in key[1].aset() or any(fn.variant_in(poly(x), h) for x in key[1].aset())}
        fixed = keys - varying
        start = {key: v for key, v in st0.items() if key not in varying}
        changed = set()
        while True:                                  # places untouched by an iteration keep their value
            cur = dict(start)
            for key in changed:
                cur[key] = (term(('sym', key)),)
            out = self.region(blocks, h, cur, h)
            back = None
            for (b, s), st in out.items():
                if s == h:
                    back = self.join(back, st)
            back = back or {}
            new = {key for key in fixed if back.get(key, 0) != cur.get(key, 0)} - changed
            if not new:
                break
            changed |= new
        closed = {}
        todo = set(changed)
        progress = True
        while progress and todo:
            progress = False
            for key in list(todo):
                r = self.solve(key, back.get(key, None), start, closed, k)
                if r is not None:
                    closed[key] = r
                    todo.discard(key)
                    progress = True
            if progress and todo:                    # again with what is known at the head of iteration k
                cur = dict(start)
                for key in changed:
                    cur[key] = closed[key](poly(k)) if key in closed else (term(('sym', key)),)
                back = None
                for (b, s), st in self.region(blocks, h, cur, h).items():
                    if s == h:
                        back = self.join(back, st)
                back = back or {}
        cur = dict(start)
        for key in changed:
            cur[key] = closed[key](poly(k)) if key in closed else None
        final = self.region(blocks, h, cur, h)
        back = None
        res = {}
        for (b, s), st in final.items():
            if s == h:
                back = self.join(back, st)
            else:
                st = dict(st)
                for key in list(st):
                    if key in varying:
                        del st[key]
                for key in changed:
                    st[key] = closed[key](B) if key in closed and B is not None and b == h else None
                res[(b, s)] = st
        self.latch[h] = back or {}
        return res

    def solve(self, key, r, start, closed, k):
        """value at the head of iteration c, as a function of c"""
        if r is None:
            return None
        me = ('sym', key)
        own = [t for t in r if t[0] == me]
        rest = []
        for t in r:
            if t[0] == me:
                continue
            if isinstance(t[0], tuple) and t[0] and t[0][0] == 'sym':
                if t[0][1] not in closed:
                    return None
                v = times((term(None, ZERO, t[2], t[3]),), closed[t[0][1]](poly(k)))
                if v is None or t[4] is not None:
                    return None
                rest += list(v)
            else:
                rest.append(t)
        if any(t[4] is not None for t in rest) and own:
            return None
        v0 = start[key] if key in start else self.read(start, key_addr(key))
        if len(own) != 1 or v0 is None or own[0][4] is not None:
            return None
        d, var = own[0][3], own[0][2]
        if k in d.aset() or var is not None and (k in var.aset()):
            return None

        kb = k + ('bound',)
        rest = [tsubst(t, k, poly(kb)) for t in rest]

        def at(c):
            up = times((term(None, ZERO, var, d * c),), v0) if d != ZERO else v0
            if up is None:
                return None
            out = list(up)
            for t in rest:
                e = t[3] + d * (c - 1 - poly(kb)) if d != ZERO else t[3]
                if t[2] is not None and var is not None and t[2] != var:
                    return None
                out.append((t[0], t[1], t[2] if t[2] is not None else var, e, (kb, c)))
            return tuple(out)
        return at


def key_addr(key):
    return poly(key[0]) + key[1] if isinstance(key[0], tuple) else key[1]


def partition(terms, total, x):
    """the exponents of the terms are 0 .. total - 1, each once, with one coefficient each"""
    if terms is None:
        return 'its value cannot be followed'
    spans, offs = [], {}
    for src, off, var, e, bind in terms:
        if src is None or isinstance(src, tuple) and src[0] == 'sym':
            return 'it contains a term that is no coefficient'
        if var is not None and var != x:
            return 'it is not evaluated at its index'
        lo = hi = e
        if bind:
            k, cnt = bind
            c = e.coef(k)
            if abs(c) != 1 or k in (e - poly(k) * c).aset():
                return 'the exponents do not follow the coefficients'
            r = e - poly(k) * c
            lo, hi = (r, r + cnt - 1) if c == 1 else (r - cnt + 1, r)
            if off.coef(k) != 32 * c:
                return 'the exponents do not follow the coefficients'
        offs.setdefault(src, set()).add(off - e * 32)
        spans.append((lo, hi))
    if any(len(v) != 1 for v in offs.values()):
        return 'the coefficients do not go with the exponents'
    cur, left = ZERO, list(spans)
    while left:
        nxt = [s for s in left if s[0] == cur]
        if len(nxt) != 1:
            return 'the terms do not cover the coefficients once each'
        left.remove(nxt[0])
        cur = nxt[0][1] + 1
    return None if cur == total else 'it is computed from %s instead of %s coefficients' % (show(cur), show(total))


def sharing(R, fn, name, n, t, shares):
    """share generation: indices 1..n, all coefficients, nothing outside"""
    E = Eval(fn)
    E.region(set(fn.alive), fn.f.entry.name, {})
    base = fn.base(shares)[0]
    pos = lambda a: fn.base(a)[1] - fn.base(shares)[1]
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op not in ('store', 'call'):
                continue
            for w in fn.writes_of(ins):
                if w[1] != base or w[4] == 'free':
                    continue
                sts = facts_of(fn).states_before(ins)
                size = w[3].const() if isinstance(w[3], Poly) else w[3]
                off = pos(w[2])
                R.ok(size is not None and sts and all(prove(st.facts, off) and prove(st.facts, n * 33 - off - size) for st in sts), 'inside', fn.where(ins),
                     '%s: a write is not confined to the n shares' % name)
    indexed, valued = [], []
    for h, st in E.latch.items():
        k = fn.ivinfo[h]['k']
        B = E.count(h)
        for bn in fn.loops[h]:
            for ins in fn.f.blocks[bn].instrs:
                if ins.op == 'store' and ins.extra['ty'] == ('i', 8):
                    ad = fn.val(ins.ops[1])
                    if fn.base(ad)[0] == base and k in pos(ad).aset():
                        v = fn.val(ins.ops[0], ('i', 8))
                        indexed.append((h, k, B, v, pos(ad), ins))
                elif ins.op == 'call' and ins.callee in ('memcpy', 'memmove'):
                    a = fn.args(ins)
                    if fn.base(a[0])[0] == base and k in pos(a[0]).aset() and a[2].const() is not None and a[2].const() != 32:
                        indexed.append((h, k, B, fn.load_at(ins, a[1], 1, False), pos(a[0]), ins))
        for (b, off), v in st.items():
            if b == base and k in off.aset():
                valued.append((h, k, B, off - fn.base(shares)[1], v))

    def low(v):
        a = v.single()
        return poly(a[2]) if a is not None and a[0] == 'trunc' else v

    def covers(v, k, B):
        return B is not None and B == n and (v == poly(k) + 1 or v == n - poly(k))
    for h, k, B, v, off, ins in indexed:
        i = low(v)
        good = off == (i - 1) * 33 and covers(i, k, B) and all(fn.dominates(ins.block.name, l) for l, hh in fn.backedges if hh == h)
        R.ok(good, 'indices', fn.where(ins), '%s: the shares do not get the indices 1 to n' % name)
    for h, k, B, off, v in valued:
        i = None
        d = off - 1
        if all(c % 33 == 0 for m, c in d.t):
            i = Poly({m: c // 33 for m, c in d.t}) + 1
        w = fn.where(fn.f.blocks[h].instrs[-1])
        if i is None:
            R.bad('value', w, '%s: share values are not where shares belong' % name)
            continue
        R.ok(covers(i, k, B), 'value', w, '%s: not every share is computed' % name)
        terms = None
        if v is not None:
            terms = tuple(t[:2] + ((low(t[2]) if t[2] is not None else None),) + t[3:] for t in v)
        why = partition(terms, t, i)
        R.ok(why is None, 'polynomial', w, '%s: a share is not the value of the whole polynomial: %s' % (name, why))
    R.ok(len({x[0] for x in indexed}) == 1, 'indices', name, '%s: share indices are not written once per share' % name)
    R.ok(len(valued) == 1, 'value', name, '%s: share values are not computed once per share' % name)


def check(R):
    text, R.sources = build.library()
    mod = ir.parse_module(text)
    R.rule('ends', 'every loop has a test, passed in every iteration, that fails after finitely many steps of its counter in the arithmetic of the counter\'s type for every value the other side can take')
    R.rule('inside', 'every write of share generation to the shares lies within n times 33 bytes')
    R.rule('indices', 'iteration over all of 1..n gives each share its index')
    R.rule('value', 'every share is computed')
    R.rule('polynomial', 'every share is the sum over all threshold coefficients of coefficient times index to the power of the coefficient\'s place')
    P = Proto()
    flow.EXACT = True
    seen = set()
    for name in sorted(mod.fns):
        f = mod.fns[name]
        if not f.blocks:
            continue
        fn = Fn(mod, name)
        known = {}
        role = 'tp' if name.startswith('tpdkg_tp_') else 'peer' if name.startswith('tpdkg_peer_') else None
        if role:
            off, size = P.of(role)['n']
            known[fn.arg(0) + off] = (2, 128)
        for h in sorted(fn.loops, key=lambda h: fn.rpoi[h]):
            w = fn.where(fn.f.blocks[h].instrs[-1])
            r = terminates(fn, h, known)
            if r is None:
                R.notes.append('%s: not a counting loop' % w)
                continue
            R.saw('ends', w) if w in seen and r else R.ok(r, 'ends', w, '%s: the loop does not end for every value its bound can take' % name)
            seen.add(w)
    R.floor('ends', 20)
    for name, args in (('toprf_create_shares', ('secret', 'n', 'threshold', 'shares')), ('dkg_start', ('n', 'threshold', 'commitments', 'shares'))):
        if name not in mod.fns or not mod.fns[name].blocks:
            R.broken('%s is gone' % name)
            continue
        fn = Fn(mod, name)
        a = {x: fn.arg(i) for i, x in enumerate(args)}
        sharing(R, fn, name, a['n'], a['threshold'], a['shares'])
    R.floor('inside', 4)
    R.floor('indices', 4)
    R.floor('polynomial', 2)
