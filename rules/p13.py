"""P13 step processing stays within the caller's buffers"""
TECHNIQUE = 'interval and linear-bound analysis of every memory access of every step, entailed by must-facts, over inlined LLVM IR'
NOTE = 'every load, store and library call on the step buffers, the state arrays and local arrays, for all lengths, n, t and message contents'
from proto import *
from common import *
from msgs import reads_of
import p14


def limits(S, n, t):
    """sizes of the arrays the caller has to provide, by state field"""
    if S.role == 'tp':
        return {'peer_sig_pks': n * 32, 'peer_lt_pks': n * 32, 'commitments': n * t * 32, 'encrypted_shares': n * n * 256,
                'complaints': n * n * 2, 'cheaters': poly(('ld', S.field('cheater_max'), 8, None, False)) * S.P.size('TP_DKG_Cheater'),
                'last_ts': n * 8}
    return {'peer_sig_pks': n * 32, 'peer_noise_pks': n * 32, 'noise_outs': n * 8, 'noise_ins': n * 8, 'shares': n * 33,
            'xshares': n * 33, 'commitments': n * t * 32, 'complaints': n * n * 2, 'my_complaints': n, 'last_ts': n * 8}


class Access:
    def __init__(self, ins, addr, size, write):
        self.ins, self.addr, self.size, self.write = ins, addr, size, write


def accesses(fn):
    T = fn.mod.types
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op == 'load':
                yield Access(ins, fn.val(ins.ops[0]), poly(T.size(ins.ty)), False)
            elif ins.op in ('store', 'call'):
                for w in fn.writes_of(ins):
                    if w[2] is not None:
                        yield Access(ins, w[2], w[3], True)
                if ins.op == 'call' and ins.callee:
                    if ins.callee in fn.logonly:
                        a = fn.args(ins)
                        ty = ins.extra['argty']
                        for i in range(len(a) - 1):
                            if ty[i] == ('ptr',) and ty[i + 1][0] == 'i' and ty[i + 1][1] == 64:
                                yield Access(ins, a[i], a[i + 1], False)
                    else:
                        for a, z in reads_of(fn, ins):
                            yield Access(ins, a, z, False)


def exit_bound(fn, h):
    """number of iterations a loop makes at most, tested at its head"""
    b = fn.f.blocks[h]
    k = fn.ivinfo[h]['k']
    for s in fn.succ(b):
        if s.name in fn.loops[h]:
            continue
        for l, pol in flow.literals(fn.edge_cond(b, s)):
            if pol and l[0] == 'ge' and l[1].coef(k) == 1 and not fn.variant_in(poly(k) - l[1], h):
                return poly(k) - l[1]
    return None


def advance(fn, a):
    """a write pointer moved along in nested loops: (start, most it has advanced) or None"""
    d = fn.f.defs.get(a[2])
    if d is None or d.op != 'phi' or d.block.name not in fn.loops:
        return None
    h = d.block.name
    k = fn.ivinfo[h]['k']
    init, most = None, ZERO
    for o, bn in zip(d.ops, d.extra['blocks']):
        if bn not in fn.alive:
            continue
        v = fn.val(o, d.ty)
        if (bn, h) not in fn.backedges:
            init = v
            continue
        x = v - poly(a)
        if len(x.t) > 1:
            return None
        for m, c in x.t:
            cn = [q for q in m if q[0] == 'cnt']
            if len(cn) != 1 or c < 0:
                return None
            B = exit_bound(fn, cn[0][1][3])
            if B is None or fn.variant_in(B, h):
                return None
            y = Poly({tuple(q for q in m if q != cn[0]): c}) * B
            if most != ZERO and most != y:
                return None
            most = y
    if init is None:
        return None
    return init, most * poly(k)


def check(R):
    R.rule('input', 'every access to the input lies within the given input length')
    R.rule('output', 'every access to the output lies within the given output length')
    R.rule('length', 'no byte of either buffer is touched before both lengths were found right')
    R.rule('state', 'every access to the arrays kept in the state and to local arrays lies within them')
    R.rule('complaints', 'complaints taken from messages name peers of the group, once per accuser and accused, and fit their arrays')
    R.rule('dispute', 'the messages of the accused are read only where they lie')
    P = Proto()
    R.sources = P.sources
    for role in ('tp', 'peer'):
        for s in range(0, 10 if role == 'tp' else 11):
            one(R, P, role, s)
    R.floor('input', 200)
    R.floor('output', 100)
    R.floor('complaints', 8)
    R.floor('dispute', 2)


def one(R, P, role, s):
    S = Step(P, role, s)
    fn = S.fn
    n, t = S.num('n'), S.num('t')
    init = S.init
    # established at the start (P12) and by the complaint step (below)
    pre = [Ge(poly(128) - n), Ge(n - t - 1), Ge(t - 2)]
    if role == 'peer':
        if s > 0:
            pre += [Ge(S.num('index') - 1), Ge(n - S.num('index'))]
        if s == 7:
            pre += [Ge(n - S.num('my_complaints_len'))]
    if s == 7:
        pre += [Ge(n * n - S.num('complaints_len'))]
    for c in pre:
        init = assume(init, c)
    lens = [poly(x) for x in (fn.arg(2), fn.arg(4))]
    lim = limits(S, n, t)

    def listed(st, v, hi):
        """v is a member of the complaint list kept in the state"""
        for x in ([('op', 'and', v, poly(255)), ('trunc', 8, v)] if hi is not None else [v.single()]):
            for c in (Ge(poly(x) - 1), Ge(n - poly(x))):
                st = assume(st, c) or st
        return st

    copies = local_copies(S) if (role, s) == ('tp', 7) else set()

    def hook(st, ins):
        st = S.hook(st, ins)
        if st is not None and s == 7 and ins.op == 'load':
            v = fn.val(('loc', ins.name), ins.ty)
            nm, off = S.fieldname(fn.val(ins.ops[0]))
            if nm == 'complaints' and v.single():
                st = listed(st, v, True)
            elif nm == 'my_complaints' and v.single():
                st = listed(st, v, None)
        return st

    def edge(st, b, sx):
        if copies:
            for l, pol in flow.literals(fn.edge_cond(b, sx)):
                if pol and l[0] == 'eq':
                    # equal to a listed pair: both halves name peers (marks have a low half no message can carry)
                    ld = [a for a in l[1].atoms() if a[0] == 'ld' and fn.base(a[1])[0] in copies and abs(l[1].coef(a)) == 1]
                    if len(ld) == 1:
                        x = (l[1] - poly(ld[0]) * l[1].coef(ld[0])) * -l[1].coef(ld[0])
                        top = [a for a in x.atoms() if x.coef(a) == 256 and arange(a)[0] >= 0 and arange(a)[1] <= 255]
                        low = [a for a in x.atoms() if x.coef(a) == 1 and arange(a)[0] >= 0 and arange(a)[1] <= 255]
                        if len(top) == 1 and len(low) == 1 and x == poly(top[0]) * 256 + poly(low[0]):
                            for a in (top[0], low[0]):
                                for c in (Ge(poly(a) - 1), Ge(n - poly(a))):
                                    st = assume(st, c) or st
        return st

    phis = set()
    for b in fn.rpo:
        for q in fn.succ(b):
            for l, pol in flow.literals(fn.edge_cond(b, q)):
                if l[0] == 'eq' and (lens[0].single() in l[1].aset() or lens[1].single() in l[1].aset()):
                    phis |= {('loc', a[2]) for a in l[1].atoms() if a[0] == 'phi'}
    vtrack, vedge = p14.split_at(fn, phis)
    xtrack, xedge = exits_apart(fn)
    track, step = lambda st: (S.track(st), vtrack(st), xtrack(st)), lambda st, b, q: xedge(vedge(edge(st, b, q), b, q), b, q)
    F = Facts(fn, hook, track, init, step)
    every = []

    def others(ins):
        """the states with what earlier loops established about each of their iterations"""
        if not every:
            every.append(flow.forall_facts(fn, hook, track, init, lambda st: 'rec' in st.may, step))
        ks = [fn.ivinfo[h]['k'] for h in fn.loopsof.get(ins.block.name, ())]
        return [flow.instantiate(st, ks) for st in every[0].states_before(ins)] if ks else [State()]
    ann = [p14.announced(P, role, 'tpdkg_%s_%s_size' % (role, io), s)[1] for io in ('input', 'output')]
    cache = {}

    def sized(st):
        """both lengths equal the announced ones"""
        key = st.facts
        if key not in cache:
            ok = True
            for arg, cases in zip(lens, ann):
                for a, v in cases:
                    both = p14.merge(st, a)
                    if both is not None and not eq0(both, arg - v):
                        ok = False
            cache[key] = ok
        return cache[key]

    counters = complaints(R, P, S, F, n) if s == 6 else {}
    lists = dispute(R, S, F) if (role, s) == ('tp', 7) else None
    for A in accesses(fn):
        bs, off = fn.base(A.addr)
        if bs is None:
            continue
        w = fn.where(A.ins)
        extra = set()
        if bs[0] == 'phi':
            adv = advance(fn, bs)
            if adv is not None:
                q = ('adv', bs)
                RANGES[q] = (0, 2 ** 40)
                extra.add((('ge', adv[1] - poly(q)), True))
                bs, off = fn.base(adv[0] + poly(q) + off)
        L, rule, what = None, 'state', None
        if bs is None:
            continue
        if poly(bs) == fn.arg(1):
            L, rule, what = lens[0], 'input', 'the input'
        elif poly(bs) == fn.arg(3):
            L, rule, what = lens[1], 'output', 'the output'
        elif poly(bs) == fn.arg(0):
            L, what = poly(P.size('TP_DKG_TPState' if role == 'tp' else 'TP_DKG_PeerState')), 'the state'
        elif bs[0] == 'alloca':
            d = fn.f.defs[bs[2]]
            L, what = fn.val(d.ops[0], ('i', 64)) * P.mod.types.size(d.extra['ty']), 'a local array'
        elif bs[0] == 'ld':
            nm, o2 = S.fieldname(A.addr)
            if nm in lim and o2 == off:
                L, what = lim[nm], nm
        elif bs[0] == 'phi' and lists is not None and fn.within(A.addr, 1):
            if lists is True:
                continue
            L, rule, what = lists, 'dispute', 'the message of the accused'
            if A.size is not None:
                for st in F.states_before(A.ins):
                    st = State(st.facts | extra, st.must, st.may)
                    z = [a for a in L.atoms() if a[0] == 'ld']
                    if not R.ok(fits(st, L, off, A.size) and st.holds(Eq(poly(z[0]))) is False, 'dispute', w,
                                '%s: reads outside the message of the accused' % S.name):
                        break
            continue
        if L is None:
            continue
        if A.size is None:
            if rule in ('input', 'output'):
                R.bad(rule, w, '%s: hands %s to %s without a length' % (S.name, what, A.ins.callee))
            continue
        if what in counters and counters[what](A, off):
            R.saw('state', w)
            continue
        for st in F.states_before(A.ins):
            st2 = State(st.facts | extra, st.must, st.may)
            if not R.ok(fits(st2, L, off, A.size) or all(fits(State(x.facts | extra, x.must, x.may), L, off, A.size) for x in others(A.ins)), rule, w, '%s: %s %s bytes at offset %s of %s, which has %s' % (
                    S.name, 'writes' if A.write else 'reads', show(A.size), show(off), what, show(L))):
                break
            if rule in ('input', 'output') and not R.ok(sized(st), 'length', w, '%s: touches %s before both buffer lengths were found right' % (S.name, what)):
                break


def fits(st, L, off, size):
    return fits1(st, known(st, L, 'arg'), known(st, off, 'ld'), size) or fits1(st, L, off, size)


def fits1(st, L, off, size):
    c = off.const()
    if c is not None and L.const() is not None and size.const() is not None:
        return 0 <= c and c + size.const() <= L.const()
    if L - off - size == ZERO and prange(off)[0] >= 0:
        return True
    return prove(st.facts, L - off - size) and (prange(off)[0] >= 0 or prove(st.facts, off))


def known(st, p, kind):
    """p with buffer lengths, or bytes of messages, replaced by what they were found equal to"""
    for _ in range(4):
        for a in p.atoms():
            if a[0] != kind:
                continue
            x = None
            for f, pol in st.facts:
                if pol and f[0] == 'eq' and f[1].coef(a) in (1, -1):
                    y = poly(a) - f[1] * f[1].coef(a)
                    if a not in all_atoms(y) and all(plain(q, kind) for q in y.atoms()):
                        x = y
                        break
            if x is not None:
                p = p.subst(a, x)
                break
        else:
            break
    return p


def plain(q, kind):
    if kind == 'ld':
        return q[0] == 'k'
    return q[0] in ('k', 'phi') or q[0] == 'ld' and poly(q[1]).const() is None and q[2] <= 2 or q[0] == 'arg' and q[1] == 2


def local_copies(S):
    """local arrays holding nothing but members of the complaint list and marks no message can match"""
    fn = S.fn
    out = {}
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op not in ('store', 'call'):
                continue
            for w in fn.writes_of(ins):
                if w[1] is None or w[1][0] != 'alloca':
                    continue
                good = False
                if ins.op == 'store':
                    v = fn.val(ins.ops[0], ins.extra['ty'])
                    a = v.single()
                    good = v == poly(0xffff) or bool(a and a[0] == 'ld' and a[2] == 2 and S.fieldname(a[1])[0] == 'complaints')
                elif ins.callee in ('memcpy', 'memmove'):
                    good = S.fieldname(fn.args(ins)[1])[0] == 'complaints'
                out[w[1]] = out.get(w[1], True) and good
    return {a for a, ok in out.items() if ok}


def complaints(R, P, S, F, n):
    """the step collecting complaints: what is stored in the lists and how often; gives the tests that accept
    accesses to them"""
    fn = S.fn
    res = {}
    names = ['complaints'] + (['my_complaints'] if S.role == 'peer' else [])
    xtrack, xedge = exits_apart(fn)
    A = flow.forall_facts(fn, S.hook, lambda st: (S.track(st), xtrack(st)), S.init, lambda st: 'rec' in st.may, xedge)
    first = None
    for nm in names:
        ln, lsz = S.field(nm + '_len'), S.F[nm + '_len'][1]
        stores = []
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op in ('store', 'call'):
                    for w in fn.writes_of(ins):
                        if w[1] is not None and S.fieldname(w[2])[0] == nm and w[1][0] == 'ld':
                            stores.append((ins, w))
        incs = [ins for b in fn.rpo for ins in b.instrs if ins.op == 'store' and fn.val(ins.ops[1]) == ln]
        if not stores:
            R.broken('%s: no store to the list %s' % (S.name, nm))
        zero = [i for i in incs if fn.val(i.ops[0], i.extra['ty']) == ZERO]
        step = [i for i in incs if i not in zero]
        where = fn.where(stores[0][0])
        ok = R.ok(len(stores) == 1 and stores[0][0].op == 'store', 'complaints', where, '%s: %s is written in more than one place' % (S.name, nm))
        ok = R.ok(len(step) == 1, 'complaints', where, '%s: the length of %s changes in more than one place' % (S.name, nm)) and ok
        if not ok:
            continue
        ins, w = stores[0]
        v = fn.val(ins.ops[0], ins.extra['ty'])
        at = fn.base(w[2])[1]
        width = 2 if nm == 'complaints' else 1
        inc = step[0]
        iv = fn.val(inc.ops[0], inc.extra['ty'])
        idx = [a for a in at.atoms() if a[0] == 'ld' and a[1] == ln]
        R.ok(len(idx) == 1 and at == poly(idx[0]) * width and iv in (poly(idx[0]) + 1, poly(('trunc', lsz * 8, poly(idx[0]) + 1))) and inc.block is ins.block, 'complaints', where,
             '%s: an entry of %s is not stored at the end of the list' % (S.name, nm))
        # the list starts empty
        if zero:
            R.ok(all(fn.idominates(z, ins) for z in zero) and all(not fn.loopsof.get(z.block.name) for z in zero), 'complaints', where,
                 '%s: %s is emptied in between' % (S.name, nm))
        else:
            R.ok(starts_empty(P, S, nm), 'complaints', where, '%s: %s is not known to be empty before' % (S.name, nm))
        # each entry names peers
        for st in F.states_before(ins):
            if nm == 'complaints':
                parts = [(a, c) for a, c in ((m[0], c) for m, c in v.t if len(m) == 1)]
                low = [a for a, c in parts if c == 1]
                lowp = sum((poly(a) for a in low), ZERO)
                highp = (v - lowp)
                good = len(low) == 1 and not any(c % 256 for m, c in highp.t)
                if good:
                    highp = Poly({m: c // 256 for m, c in highp.t})
                    good = all(prove(st.facts, x) for x in (lowp - 1, n - lowp, highp - 1, n - highp))
            else:
                good = prove(st.facts, v - 1) and prove(st.facts, n - v)
            R.ok(good, 'complaints', where, '%s: an entry of %s does not name peers between 1 and n' % (S.name, nm))
        # how often
        hs = fn.loopsof.get(ins.block.name, ())
        trips = []
        ks = [fn.ivinfo[h]['k'] for h in hs]
        for k in ks:
            trips.append(all(prove(st.facts, n - 1 - poly(k)) for st in F.states_before(ins))
                         or all(prove(flow.instantiate(st, ks).facts, n - 1 - poly(k)) for st in A.states_before(ins)))
        if nm == 'complaints':
            first = ins, v
            R.ok(len(hs) <= 2 and all(trips), 'complaints', where, '%s: more than n complaints per peer can enter the list' % S.name)
        else:
            # once per complainer: the pair was looked for in the list of complaints and is entered there
            low = [poly(m[0]) for m, c in first[1].t if len(m) == 1 and c == 1] if first else []
            ok = bool(low) and fn.idominates(first[0], ins) and all(unlisted(S, st, first[1]) for st in A.states_before(first[0])) and \
                all(st.holds(Eq(low[0] - S.num('index'))) is True and eq0(st, first[1] - low[0] - v * 256) for st in F.states_before(ins))
            R.ok(ok, 'complaints', where, '%s: the same complaint can enter %s twice' % (S.name, nm))

        def accept(A, off, nm=nm, ln=ln, width=width, ins=ins):
            # an index below the length of the list, or its end while entering the next one
            if A.ins is ins:
                return True
            z = A.size
            if off == ZERO and z is not None:
                q = [a for a in z.atoms() if a[0] == 'ld' and a[1] == ln]
                return len(q) == 1 and z == poly(q[0]) * width
            for st in F.states_before(A.ins):
                le = [a for f, _ in st.facts for a in all_atoms(f) if a[0] == 'ld' and a[1] == ln]
                if not any(prove(st.facts, poly(a) * width - off - z) for a in set(le)):
                    return False
            return True
        res[nm] = accept
    return res


def starts_empty(P, S, nm):
    """the length was set to 0 by the start function and no earlier step writes it"""
    T = Step(P, S.role, 'start')
    fn = T.fn
    a, size = T.field(nm + '_len'), T.F[nm + '_len'][1]
    F = Facts(fn, watch(fn, {'len': (a, size)}, T.hook), T.track, T.init)
    ok = F.success_states()
    if not ok or not all(value(st, 'len') == ZERO for _, st in ok):
        # zeroed as part of a larger area
        for r, st in ok:
            d = fn.defs_at(r, a, size)
            if not d or 'entry' in d or not all(rel == 'must' and (
                    (i.op == 'call' and i.callee == 'memset' and fn.args(i)[1] == ZERO) or
                    (i.op == 'store' and fn.val(i.ops[0], i.extra['ty']) == ZERO)) for i, rel in d):
                return False
    for s in range(S.s):
        E = Step(P, S.role, s)
        g = E.fn
        for b in g.rpo:
            for ins in b.instrs:
                if ins.op in ('store', 'call'):
                    for w in g.writes_of(ins):
                        if w[1] == g.base(E.field(nm + '_len'))[0] and not g.disjoint(E.field(nm + '_len'), size, w[2], w[3]):
                            return False
    return True


def unlisted(S, st, v):
    """v was compared with every complaint listed so far and equals none"""
    for f, pol in st.facts:
        if f[0] == 'all':
            k, B, (g, gp) = f[1], f[2], f[3]
            if g[0] == 'eq' and not gp:
                ld = [a for a in g[1].atoms() if a[0] == 'ld' and S.fieldname(a[1])[0] == 'complaints' and k in all_atoms(a[1])]
                b = B.single()
                if len(ld) == 1 and g[1] * g[1].coef(ld[0]) == poly(ld[0]) - v and b and b[0] == 'ld' and S.fieldname(b[1])[0] == 'complaints_len':
                    return True
    return False


def dispute(R, S, F):
    """the read pointer of the dispute step moves from message to message; gives the size of the current one"""
    fn = S.fn
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op != 'phi' or ins.ty != ('ptr',) or b.name not in fn.loops:
                continue
            a = fn.val(('loc', ins.name), ins.ty).single()
            if not a or a[0] != 'phi' or a[2] != ins.name or fn.baseroots(a) != {('arg', fn.f.params[1][1])}:
                continue
            w = fn.where(b.instrs[-1])
            h = b.name
            R.ok(exit_bound(fn, h) == S.num('n'), 'dispute', w, '%s: does not visit the messages of n peers' % S.name)
            cases = set()
            for o, bn in zip(ins.ops, ins.extra['blocks']):
                if bn not in fn.alive:
                    continue
                v = fn.val(o, ins.ty)
                if (bn, h) not in fn.backedges:
                    R.ok(v == fn.arg(1), 'dispute', w, '%s: does not begin with the first message' % S.name)
                    continue
                x = v - poly(a)
                for st in F.at.get(bn, {}).values():
                    y = x
                    for q in x.atoms():
                        if q[0] == 'phi':
                            e = p14.direct(st, q)
                            kn = st.known(poly(q))
                            y = y.subst(q, poly(kn) if kn is not None else e) if kn is not None or e is not None else y
                    cases.add((st.resolve(y), frozenset(f for f in st.facts if f[0][0] == 'eq')))
            sizes = {y for y, _ in cases if y != ZERO}
            ctr = [q for y in sizes for q in y.atoms() if q[0] == 'ld']
            ok = len(sizes) == 1 and len(set(ctr)) == 1
            L = next(iter(sizes)) if ok else None
            if not ok and len(set(ctr)) <= 1 and all(q[0] == 'ld' for y in sizes for q in y.atoms()):
                R.bad('dispute', w, '%s: moves on by %s bytes from message to message' % (S.name, ' or '.join(sorted(show(y) for y in sizes))))
                return True
            if not ok:
                # let the announced sizes decide (P14); nothing is claimed about a different way of walking
                return True
            c = ctr[0]
            R.ok(L == poly(c) * 33 + S.P.HDR, 'dispute', w, '%s: moves on by %s bytes instead of the size of the message' % (S.name, show(L)))
            R.ok(all((y == ZERO) == any(f == (('eq', poly(c)), True) for f in fs) for y, fs in cases), 'dispute', w,
                 '%s: moves on although there is no message, or stays' % S.name)
            # the same counts as those the length was checked against
            base = fn.base(c[1])[0]
            mine = p14.counted(fn, F, base)
            others = set()
            for b2 in fn.rpo:
                for i2 in b2.instrs:
                    if i2.op == 'store' and fn.loopsof.get(b2.name):
                        ab = fn.base(fn.val(i2.ops[1]))[0]
                        if ab and ab[0] == 'alloca' and ab != base:
                            o = p14.counted(fn, F, ab)
                            if o:
                                others.add(p14.norm(o))
            R.ok(mine is not None and len(mine) == 1 and p14.norm(mine) in others, 'dispute', w,
                 '%s: the messages are not walked by the counts the length was checked against' % S.name)
            return L
    return True
