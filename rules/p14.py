"""P14 announced buffer sizes agree with what the steps consume and produce"""
TECHNIQUE = 'must-fact dataflow: size polynomials of announcing functions compared with those entailed by every successful step, over inlined LLVM IR'
NOTE = 'all paths of every size function and step; sizes are polynomials in the group size and threshold'
from proto import *
from common import *

LIT = ('eq', 'ge', 'ult', 'slt')


def settle(fn, st, v):
    """value v with elements of filled local arrays and running totals replaced by what is known"""
    for _ in range(8):
        v = st.resolve(v)
        for a in v.atoms():
            if a[0] == 'ld' and a[2] == 8:
                x = element(st, a[1])
                if x is not None:
                    v = v.subst(a, x)
                    break
            elif a[0] == 'phi':
                x = total(fn, st, a)
                if x is None:
                    d = st.known(poly(a))
                    x = poly(d) if d is not None else direct(st, a)
                if x is not None:
                    v = v.subst(a, x)
                    break
        else:
            return v
    return v


def direct(st, a):
    for f, pol in st.facts:
        if pol and f[0] == 'eq' and f[1].coef(a) in (1, -1):
            x = poly(a) - f[1] * f[1].coef(a)
            if a not in all_atoms(x):
                return x
    return None


def element(st, addr):
    """what every element of a filled array holds, for an address inside it"""
    for f, pol in st.facts:
        if f[0] == 'all' and f[3][0][0] == 'set':
            k, B, (g, _) = f[1], f[2], f[3]
            if k in all_atoms(g[2]):
                continue
            base = g[1] - poly(k) * g[1].coef(k)
            d = addr - base
            c = g[1].coef(k)
            if c and d == ZERO:
                return g[2]                        # first element; the group has members
            ks = [x for x in d.atoms() if x[0] == 'k']
            if c and len(ks) == 1 and d == poly(ks[0]) * c:
                return g[2]
    return None


def total(fn, st, a):
    """closed form of a sum of equal parts"""
    ins = fn.f.defs.get(a[2])
    if ins is None or ins.block.name not in fn.loops:
        return None
    h = ins.block.name
    k = fn.ivinfo[h]['k']
    parts, init = [], None
    for o, bn in zip(ins.ops, ins.extra['blocks']):
        v = fn.val(o, ins.ty)
        if (bn, h) in fn.backedges:
            parts.append(v - poly(a))
        else:
            init = v
    if init is None or len(parts) != 1:
        return None
    x = parts[0]
    for q in x.atoms():
        if q[0] == 'ld':
            e = element(st, q[1])
            if e is not None:
                x = x.subst(q, e)
    if a in all_atoms(x) or fn.variant_in(x, h):
        return None
    B = [f[2] for f, _ in st.facts if f[0] == 'all' and f[1] == k]
    return init + x * B[0] if B else None


def announced(P, role, name, s):
    """[(state, size)] a size function returns at step s"""
    off, size = P.of(role)['step']
    fn = P.func(name, ['ctx'], {(0, off, size): s})
    n = poly(('ld', fn.arg(0) + P.of(role)['n'][0], 1, None, False))
    init = assume(State(), Ge(n - 1))
    track, edge = split_at(fn, [r.ops[0] for r in fn.rets()])
    F = flow.forall_facts(fn, sethook(fn), track, init, edgehook=edge)
    return fn, [(st, settle(fn, st, v)) for r, st, v in F.returns()]


def sethook(fn):
    def h(st, ins):
        if ins.op == 'store':
            return State(st.facts | {(('set', fn.val(ins.ops[1]), fn.val(ins.ops[0], ins.extra['ty']),
                                       fn.mod.types.size(ins.extra['ty'])), True)}, st.must, st.may)
        return st
    return h


def merge(st, other):
    """facts of both, or None if they exclude each other"""
    for l, pol in other.facts:
        if l[0] in LIT:
            st = assume(st, ('lit', l, pol))
            if st is None:
                return None
    return st


def strict(S):
    """success states of a step with the values its buffer lengths were compared with kept apart"""
    fn = S.fn
    phis = set()
    for r, st in S.facts.success_states():
        for l, _ in st.facts:
            if l[0] == 'eq' and (fn.arg(4).single() in l[1].aset() or fn.arg(2).single() in l[1].aset()):
                phis |= {('loc', a[2]) for a in l[1].atoms() if a[0] == 'phi'}
    if not phis:
        return S.facts.success_states()
    track, edge = split_at(fn, phis)
    return Facts(fn, S.hook, lambda st: (S.track(st), track(st)), S.init, edge).success_states()


def counters(fn, F, base, stride):
    """how the elements of a size table depend on a table of counters: {(counted?, size with the counter named)}
    and what is counted; None if the table is filled in another way"""
    cases, ctr = set(), set()
    c = ('ctr',)
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op != 'store' or not fn.loopsof.get(b.name):
                continue
            a = fn.val(ins.ops[1])
            if fn.base(a)[0] != fn.base(base)[0]:
                continue
            v = fn.val(ins.ops[0], ins.extra['ty'])
            for st in F.states_before(ins):
                done = []
                for q in ([(st, v)] if not (v.single() and v.single()[0] == 'ite') else
                          [(assume(st, v.single()[1]), poly(v.single()[2])), (assume(st, Not(v.single()[1])), poly(v.single()[3]))]):
                    if q[0] is not None:
                        done.append(q)
                for s2, x in done:
                    hit = [l for l in x.atoms() if l[0] == 'ld'] or \
                        [z for l, pol in s2.facts if l[0] == 'eq' and pol and l[1].single() for z in l[1].atoms() if z[0] == 'ld']
                    hit = [z for z in hit if fn.base(z[1])[0] and fn.base(z[1])[0][0] == 'alloca']
                    if len(hit) != 1:
                        return None
                    z = s2.holds(Eq(poly(hit[0])))
                    if z is None:
                        return None
                    cases.add((not z, x.subst(hit[0], poly(c)) if not z else x.subst(hit[0], ZERO)))
                    ctr.add(fn.base(hit[0][1])[0])
    if len(ctr) != 1:
        return None
    return frozenset(cases), counted(fn, F, ctr.pop())


def counted(fn, F, base):
    out = set()
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op == 'store' and fn.base(fn.val(ins.ops[1]))[0] == base:
                a, v = fn.val(ins.ops[1]), fn.val(ins.ops[0], ins.extra['ty'])
                inc = [x for x in v.atoms() if x[0] == 'ld' and x[1] == a]
                if v == ZERO:
                    continue
                if not inc and v.const() is not None:
                    out.add((fn.base(a)[1], 'constant'))
                    continue
                if len(inc) != 1 or len(fn.loopsof.get(b.name, ())) != 1:
                    return None
                k = fn.ivinfo[list(fn.loopsof[b.name])[0]]['k']
                idx = deep(fn.base(a)[1], k, poly(('i',)))
                w = fn.mod.types.size(ins.extra['ty'])
                if any(m and cf % w for m, cf in idx.t):
                    return None
                idx = Poly({m: (cf // w) for m, cf in idx.t})
                out.add((idx, v - poly(inc[0])))
    return frozenset(out)


def check(R):
    R.rule('announced', 'every successful step insists on exactly the input and output lengths announced before it')
    R.rule('sizes', 'the per-peer input sizes are the shares of the announced total')
    R.rule('match', 'what a peer announces as output is what the trusted party expects from that peer')
    R.rule('slice', "the designated part of the trusted party's output is exactly what the peer announces as input, and within the output")
    R.rule('refuse', 'no slice is handed out for a peer outside the group or beyond the given buffer')
    R.rule('dispute', 'in the dispute step each accused sends one record per complaint against it')
    P = Proto()
    R.sources = P.sources
    H = P.HDR
    ann = {}
    for role in ('tp', 'peer'):
        for s in range(0, 10 if role == 'tp' else 11):
            for io in ('input', 'output'):
                ann[role, io, s] = announced(P, role, 'tpdkg_%s_%s_size' % (role, io), s)
    ctx = P.step('tp', 0).arg(0)
    n, t = (poly(('ld', ctx + P.tp[x][0], 1, None, False)) for x in ('n', 't'))
    pn, pt = (poly(('ld', ctx + P.peer[x][0], 1, None, False)) for x in ('n', 't'))
    same = lambda p: p.subst(pt.single(), poly(('T',))).subst(pn.single(), n).subst(('T',), t)

    for role in ('tp', 'peer'):
        for s in range(0, 10 if role == 'tp' else 11):
            if (role, s) == ('tp', 7):
                continue                                  # never succeeds; see below
            S = Step(P, role, s)
            fn = S.fn
            ok = strict(S)
            if not ok and (role, s) != ('peer', 10):
                R.broken('%s never succeeds' % S.name)
            for r, st in ok:
                for io, arg in (('input', fn.arg(2)), ('output', fn.arg(4))):
                    if (role, s) == ('peer', 10):
                        continue
                    af, cases = ann[role, io, s]
                    seen = False
                    for a, v in cases:
                        both = merge(st, a)
                        if both is None:
                            continue
                        seen = True
                        R.ok(eq0(both, arg - v), 'announced', af.where(af.rets()[0]),
                             '%s succeeds with another %s length than the announced %s' % (S.name, io, show(v)))
                    R.ok(seen, 'announced', af.where(af.rets()[0]), '%s: success excludes every announced %s size' % (S.name, io))

    # per-peer sizes
    per = {}
    for s in range(10):
        off, size = P.tp['step']
        fn = P.func('tpdkg_tp_input_sizes', ['ctx', 'sizes'], {(0, off, size): s})
        F = flow.forall_facts(fn, sethook(fn), None, assume(State(), Ge(n - 1)))
        w = fn.where(fn.rets()[0])
        if s == 7:
            c = counters(fn, F, fn.arg(1), 8)
            if c is not None:
                R.ok(c[0] == frozenset({(False, ZERO), (True, poly(('ctr',)) * 33 + H)}), 'dispute', w,
                     'tp step 7: per-peer sizes %s instead of one record of 33 bytes per complaint behind a header' % (sorted((x[0], show(x[1])) for x in c[0]),))
                fn2, cases = ann['tp', 'input', 7]
                hs = P.step('tp', 7)
                for g in (fn2, hs):
                    G = Facts(g)
                    arrs = {}
                    for b in g.rpo:
                        for ins in b.instrs:
                            if ins.op == 'store' and g.loopsof.get(b.name) and g.mod.types.size(ins.extra['ty']) == 8:
                                ab = g.base(g.val(ins.ops[1]))[0]
                                if ab and ab[0] == 'alloca':
                                    arrs.setdefault(ab, ins)
                    for ab, ins in arrs.items():
                        d = counters(g, G, poly(ab), 8)
                        if d is not None:
                            R.ok(d[0] == c[0] and (d[1] is None or c[1] is None or norm(d[1]) == norm(c[1])), 'dispute', g.where(ins),
                                 'tp step 7: total computed from other per-peer sizes than announced')
                if c[1] is not None:
                    want = [x for x in c[1]]
                    R.ok(len(want) == 1 and want[0][1] == ONE, 'dispute', w, 'tp step 7: complaints are not counted one by one')
            continue
        for r, st, v in F.returns():
            el = all_elements(st, fn.arg(1), 8, n)
            el = [e for e in el if not any(x[0] == 'k' for x in all_atoms(e))]
            R.ok(len(set(el)) == 1, 'sizes', w, 'tp step %d: per-peer input sizes are not all set to the same value' % s)
            if el:
                per[s] = el[0]
                for a, tot in ann['tp', 'input', s][1]:
                    R.ok(eq0(merge(st, a) or st, tot - n * el[0]), 'sizes', w,
                         'tp step %d: announced total %s is not n times the per-peer size %s' % (s, show(tot), show(el[0])))
    # peers' outputs against the trusted party's expectation
    for s in range(0, 10):
        tps = s + 1 if s <= 5 else s
        if s in (6, 7):
            continue
        af, cases = ann['peer', 'output', s]
        for a, v in cases:
            if tps in per:
                R.ok(same(v) == same(per[tps]), 'match', af.where(af.rets()[0]),
                     'peer step %d announces %s bytes of output, the trusted party expects %s at step %d' % (s, show(v), show(per[tps]), tps))
    af, cases = ann['peer', 'output', 7]
    S = Step(P, 'peer', 7)
    mine, any_ = S.num('my_complaints_len'), S.num('complaints_len')
    got = set()
    for a, v in cases:
        st = assume(a, Not(Eq(any_)))
        if st is None:
            continue
        for c, cond in ((True, Not(Eq(mine))), (False, Eq(mine))):
            s2 = assume(st, cond)
            if s2 is None:
                continue
            v2 = s2.resolve(v)
            k = s2.known(v2)
            R.ok(eq0(s2, v2 - (mine * 33 + H if c else ZERO)), 'dispute', af.where(af.rets()[0]),
                 'peer step 7: an accused announces %s bytes instead of a header and 33 bytes per complaint against it' % show(v2) if c else
                 'peer step 7: a peer nobody complained about announces output')
    # slices
    poff, psz = P.tp['prev']
    for p in range(10):
        fn = P.func('tpdkg_tp_peer_msg', ['ctx', 'base', 'base_size', 'peer', 'msg', 'len'], {(0, poff, psz): p})
        cells = {'msg': (fn.arg(4), 8), 'len': (fn.arg(5), 8)}
        keep = watch(fn, cells)

        def hook(st, ins):
            if ins.op == 'load':
                for nm, (ca, cs) in cells.items():
                    if fn.val(ins.ops[0]) == ca and value(st, nm) is not None and fn.val(('loc', ins.name), ins.ty) != value(st, nm):
                        st = assume(st, Eq(fn.val(('loc', ins.name), ins.ty), value(st, nm))) or st
            return keep(st, ins)
        F = Facts(fn, hook, lambda st: (value(st, 'msg'), value(st, 'len')), assume(State(), Not(Eq(fn.arg(1)))))
        w = fn.where(fn.rets()[0])
        peer = fn.arg(3)
        if p == 7:
            continue
        ok = F.success_states()
        if not ok:
            R.broken('no slice for peers after step %d' % p)
        tot = ann['tp', 'output', p][1]
        want = ann['peer', 'input', p if p <= 6 else p + 1][1]
        if len(tot) != 1 or len(want) != 1:
            R.broken('announced sizes of step %d are not unique' % p)
        tot, want = tot[0][1], same(want[0][1])
        for r, st in ok:
            m, l = value(st, 'msg'), value(st, 'len')
            if not R.ok(m is not None and l is not None, 'slice', w, 'step %d: slice not set' % p):
                continue
            m, l = st.resolve(m), st.resolve(l)
            if p == 9:
                R.ok(eq0(st, l), 'slice', w, 'step 9: a non-empty slice of no output')
                continue
            off = m - fn.arg(1)
            R.ok(eq0(st, same(l) - want), 'slice', w, 'after step %d a peer is handed %s bytes but announces %s' % (p, show(l), show(want)))
            fits = False
            if eq0(st, tot - n * want):
                fits = off == peer * want
            if not fits and eq0(st, tot - want):
                fits = off == ZERO
            R.ok(fits, 'slice', w, "after step %d the slice at offset %s is not the peer's part of the %s bytes of output" % (p, show(off), show(tot)))
            R.ok(st.holds(Ge(n - peer - 1)) is True or prove(st.facts, n - peer - 1), 'refuse', w,
                 'after step %d a peer number outside the group gets a slice' % p)
            end = fn.arg(1) + fn.arg(2)
            R.ok(any(not pol and f[0] == 'ult' and f[1] == end and eq0(st, f[2] - m - l) for f, pol in st.facts) or prove(st.facts, fn.arg(2) - off - l), 'refuse', w,
                 'after step %d a slice reaching beyond the given buffer is handed out' % p)
    R.floor('announced', 36)
    R.floor('sizes', 9)
    R.floor('match', 8)
    R.floor('slice', 9)


def norm(c):
    """counted positions independent of how the complaint's low byte is cut out"""
    out = set()
    for idx, d in c:
        t = {}
        for m, cf in idx.t:
            t[tuple(low(a) for a in m)] = cf
        out.add((tuple(sorted(t.items(), key=repr)), d))
    return frozenset(out)


def low(a):
    if a[:2] == ('op', 'and') and a[3] == poly(255):
        x = a[2]
    elif a[0] == 'trunc' and a[1] == 8:
        x = a[2]
    else:
        return a
    q = poly(x).single()
    if q and q[0] == 'ld':
        return ('low', q[1])
    return ('low', x)
