"""P17 every bad share leads to a complaint and no disputed run succeeds"""
TECHNIQUE = 'typestate per loop iteration (share verified / refuted / complained / recorded) as must/may dataflow over inlined LLVM IR'
NOTE = 'every path of the share check, of complaint collection by both roles and of dispute resolution, for all group sizes'
from proto import *
from common import *
from msgs import divide, same
import ring
from p06 import advance_ok, final, predicate
from p16 import session_of_key
from p18 import Explain, valueset, recfield

BASE = 'crypto_scalarmult_ristretto255_base'
OPS = ('crypto_scalarmult_ristretto255', 'crypto_core_ristretto255_add', 'crypto_core_ristretto255_sub',
       'crypto_core_ristretto255_is_valid_point')


def copied(fn, ins, addr, size, depth=4):
    """where the bytes at addr were copied from (addr itself if they were not)"""
    b = fn.base(addr)[0]
    if not depth or b is None or b[0] != 'alloca':
        return addr
    src = set()
    for d in fn.defs_at(ins, addr, size):
        if d == 'entry' or d[0].op != 'call' or d[0].callee not in ('memcpy', 'memmove'):
            return addr
        a = fn.args(d[0])
        src.add(copied(fn, d[0], a[1] + (addr - a[0]), size, depth - 1))
    return src.pop() if len(src) == 1 else addr


class Check:
    """one comparison of g^share with the evaluated commitments"""

    def __init__(self, fn, c, gen):
        self.fn, self.cmp, self.gen = fn, c, gen
        self.ok = Eq(fn.val(('loc', c.name), c.ty))
        hs = fn.loopsof.get(c.block.name, ())
        self.h = min(hs, key=lambda h: len(fn.loops[h])) if hs else None
        self.size = fn.args(c)[2].const() if len(fn.args(c)) > 2 else 32
        self.share = copied(fn, gen, fn.args(gen)[1], 32)
        blocks = fn.loops[self.h] if self.h else fn.alive
        self.ops = {i.uid: i for i in fn.calls(*OPS) if i.block.name in blocks}


def checks(fn):
    out = []
    for c in fn.calls(*flow.MEMCMP):
        a = fn.args(c)
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            ds = fn.defs_at(c, x, 32) if fn.base(x)[0] and fn.base(x)[0][0] == 'alloca' else ()
            gens = [d[0] for d in ds if d != 'entry' and d[0].op == 'call' and d[0].callee == BASE]
            if gens:
                out.append(Check(fn, c, gens[0]))
                break
    return out


def verdicts(fn, cs, base=None):
    """hook and settle function keeping ('verified',) / ('refuted',) per iteration"""
    ops = {}
    for c in cs:
        ops.update(c.ops)
    heads = {c.h for c in cs}

    def hook(st, ins):
        if base:
            st = base(st, ins)
            if st is None:
                return None
        if ins.uid in ops:
            st = State(st.facts, st.must - {('verified',), ('refuted',)}, st.may | {('open', ins.uid)})
        return st

    def settle(st):
        may, must = set(st.may), set(st.must)
        for t in st.may:
            if t[0] == 'open':
                i = ops[t[1]]
                r = st.holds(Eq(fn.val(('loc', i.name), i.ty)))
                good = r if i.callee != 'crypto_core_ristretto255_is_valid_point' else (None if r is None else not r)
                if good is True:
                    may.discard(t)
                elif good is False:
                    must.add(('refuted',))
        for c in cs:
            r = st.holds(c.ok)
            if r is True and not any(t[0] == 'open' for t in may):
                must.add(('verified',))
            elif r is False:
                must.add(('refuted',))
        if must == st.must and may == st.may:
            return st
        return State(st.facts, frozenset(must), frozenset(may))

    def reset(st, b, s):
        if s.name in heads:
            return State(st.facts, frozenset(t for t in st.must if t[0] not in ('verified', 'refuted', 'said', 'rf')),
                         frozenset(t for t in st.may if t[0] not in ('open', 'said', 'rf')))
        return st
    return hook, settle, reset


def ends(fn, F, h, settle):
    """states at the end of an iteration of the loop at h: [(block, state)]"""
    out = []
    hb = fn.f.blocks[h]
    for bn, hn in fn.backedges:
        if hn == h:
            b = fn.f.blocks[bn]
            for st in F.at.get(bn, {}).values():
                for o in (F.transfer(b, st),):
                    o = assume(o, fn.edge_cond(b, hb)) if o is not None else None
                    if o is not None:
                        out.append((b, settle(o)))
    return out


def leaving(fn, F, h):
    """[(block, state)] at the exits of the loop"""
    out = []
    for bn in fn.loops[h]:
        if bn in fn.alive:
            b = fn.f.blocks[bn]
            for s in fn.succ(b):
                if s.name not in fn.loops[h]:
                    for st in F.at.get(bn, {}).values():
                        o = F.transfer(b, st)
                        o = assume(o, fn.edge_cond(b, s)) if o is not None else None
                        if o is not None:
                            out.append((b, s, o))
    return out


def trunc(v):
    a = poly(v).single()
    while a and a[0] in ('trunc', 'zext'):
        v = poly(a[2])
        a = v.single()
    return poly(v)


class Part(ring.Ring):
    """only the loops asked for"""

    def run(self):
        pass


def equation(R, fn, name, c, t, commitments, shares, sharesize, isindex):
    """the comparison is about all bytes and all coefficients of one peer; returns that peer's number (0-based) or None"""
    w = fn.where(c.cmp)
    R.ok(c.size == 32, 'equation', w, '%s: only %s bytes of the share\'s image are compared' % (name, c.size))
    part = Part(fn)
    part.loop(c.h, (frozenset(), {}))
    key = ('cmp', fn.val(('loc', c.cmp.name), c.cmp.ty).single())
    found = {env[key] for g, env in part.latch.get(c.h, ()) if key in env}
    cb, co = fn.base(commitments)
    at = lambda addr: ring.atom(('v',) + fn.base(addr) + (0,))
    out = set()
    for vals in found:
        if vals is None or None in vals and all(x is None for x in vals):
            R.bad('equation', w, '%s: what is compared is not known' % name)
            return None
        vals = [ring.absorb(v) for v in vals]
        sides = [(v, o) for v, o in (vals, vals[::-1]) if any(a[0] == 'v' and a[1] == cb for a in ring.parts(v))]
        if not R.ok(len(sides) == 1, 'equation', w, '%s: the share is not compared with the dealer\'s commitments' % name):
            return None
        (v, o), = sides
        peers = set()
        for a in ring.parts(v):
            if a[0] == 'v' and a[1] == cb:
                for x in (poly(0), poly(1), t - 1, t - 2, t):
                    off = a[2]
                    for y in off.aset():
                        off = off.subst(y, x) if y[0] == 'kb' else off
                    peers |= {divide(off + d - co, t * 32) for d in (0, -32, 32)}
        indices = [a[1] for a in ring.parts(v) if a[0] == 'a' and isindex(poly(a[1]))]
        good = {q for q in peers - {None} for x in indices
                if v == ring.absorb(ring.total(t, lambda k: ring.times(ring.power(ring.num(poly(x)), k), at(commitments + (t * q + k) * 32))))}
        if not R.ok(len(good) == 1, 'equation', w, '%s: the evaluation is not the sum of one peer\'s t commitments weighted with the powers of '
                    'the receiver\'s index, but %s' % (name, ring.shown(v))):
            return None
        who, = good
        out.add(who)
        if shares is not None:
            R.ok(o == ring.times(ring.atom(('G',)), at(shares + who * sharesize + 1)), 'equation', w,
                 '%s: the share checked is not the one of the peer whose commitments are used' % name)
    if not R.ok(len(out) == 1, 'equation', w, '%s: the share is compared with the commitments of different peers' % name):
        return None
    return out.pop()


def complaining(R, fn, name, n, t, self_, commitments, shares, sharesize, D, L, base, init, track, api=False):
    """D: where complaints are listed, L: where their number is kept"""
    cs = checks(fn)
    cs = [c for c in cs if c.h]
    if not cs:
        R.broken('%s: no check of shares found' % name)
    lb, db = fn.base(L)[0], fn.base(D)[0]
    notes = {}
    for b in fn.rpo:
        for i in b.instrs:
            if i.op == 'store' and fn.base(fn.val(i.ops[1]))[0] == db and any(b.name in fn.loops[c.h] for c in cs) and \
                    fn.val(i.ops[1]) != L and i.block.name in fn.alive:
                notes[i.uid] = i
    for c in cs:
        who = equation(R, fn, name, c, t, commitments, shares, sharesize, lambda x: x == self_)
        if who is None:
            return
        k = poly(fn.ivinfo[c.h]['k'])
        hook0, settle0, reset0 = verdicts(fn, [c], base)

        def own(st):
            return eq0(st, who + 1 - self_) or \
                any(pol and f[0] == 'eq' and any(x[0] == 'trunc' and poly(x[2]) == who + 1 and f[1] in (poly(x) - self_, self_ - poly(x))
                                                 for x in f[1].aset()) for f, pol in st.facts)

        def settle(st):
            st = settle0(st)
            return State(st.facts, st.must | {('own',)}, st.may) if own(st) else st

        def reset(st, b, s):
            st = reset0(st, b, s)
            return State(st.facts, st.must - {('own',)}, st.may) if s.name == c.h else st

        def hook(st, ins):
            st = hook0(st, ins)
            if st is None:
                return None
            if ins.uid in notes:
                st = State(st.facts, st.must | {('said', trunc(fn.val(ins.ops[0], ins.extra['ty'])))}, st.may | {('said',)})
            return st
        tr = lambda st: (track(st) if track else None, frozenset(x for x in st.must if x[0] in ('verified', 'refuted', 'said')))
        F = Facts(fn, hook, tr, init, lambda st, b, s: reset(settle(st), b, s))
        for i in notes.values():
            v = trunc(fn.val(i.ops[0], i.extra['ty']))
            w = fn.where(i)
            R.ok(v == who + 1, 'exactly', w, '%s: the complaint names %s instead of the peer whose share was checked' % (name, show(v)))
            for st in F.states_before(i):
                st = settle(st)
                R.ok(('verified',) not in st.must and ('refuted',) in st.must, 'exactly', w, '%s: complains about a peer whose share was not refuted' % name)
            idx = (fn.val(i.ops[1]) - D)
            a = idx.single()
            good = False
            why = 'is not put at the end of the list'
            if a and a[0] == 'ld' and a[1] == L:
                good = any(j.op == 'store' and fn.val(j.ops[1]) == L and trunc(fn.val(j.ops[0], j.extra['ty'])) == idx + 1 for j in i.block.instrs)
                why = 'is not counted'
            elif idx == ZERO or (a and a[0] in ('cnt', 'phi', 'zext', 'trunc')):
                x = {a} | set(all_atoms(a)) if a else set()
                good = any(j.op == 'store' and fn.val(j.ops[1]) == L and j.block.name not in fn.loops[c.h]
                           and (x & set(all_atoms(fn.val(j.ops[0], j.extra['ty'])))
                                or any(y[0] in ('cnt', 'phi') for y in all_atoms(fn.val(j.ops[0], j.extra['ty']))))
                           for b in fn.rpo for j in b.instrs)
                why = 'is not counted'
            R.ok(good, 'exactly', w, '%s: the complaint %s' % (name, why))
        for b, st in ends(fn, F, c.h, settle):
            w = fn.where(b.instrs[-1])
            said = [x for x in st.must if x[0] == 'said']
            good = said or ('verified',) in st.must or ('own',) in st.must
            R.ok(good, 'complain', w, '%s: a share that was not verified passes without complaint' % name)
        for b, s, st in leaving(fn, F, c.h):
            if s.name in fn.alive and not noreturn(s):
                R.ok(b.name == c.h and (prove(st.facts, k - n) or prove(relin(st.facts), k - n)), 'complain', fn.where(b.instrs[-1]),
                     '%s: the shares of the remaining peers are not checked' % name)
        # nothing takes complaints back
        for b in fn.rpo:
            for i in b.instrs:
                if i.uid in notes or i.op not in ('store', 'call'):
                    continue
                for w in fn.writes_of(i):
                    if (w[1] == db and overl(w[2], w[3], D, n)) or (w[1] == lb and not fn.disjoint(L, 1, w[2], w[3])):
                        for st in F.states_before(i):
                            if ('said',) in st.may:
                                inc = i.op == 'store' and w[2] == L and any(
                                    x[0] == 'ld' and x[1] == L or x[0] in ('cnt', 'phi') for x in all_atoms(fn.val(i.ops[0], i.extra['ty'])))
                                R.ok(inc, 'kept', fn.where(i), '%s: overwrites complaints already made' % name)
        if api:
            for r, st in F.success_states():
                R.ok(True, 'complain', fn.where(r), '')


def overl(addr, size, D, n):
    """the write is not entirely before the list"""
    d = (addr - D).const()
    s = size.const() if size is not None else None
    return not (d is not None and s is not None and d + s <= 0)


def noreturn(b):
    return any(i.op == 'unreachable' for i in b.instrs)


def collecting(R, P, role, answers=True):
    """every complaint in an accepted message is kept as (complainer, accused), or its sender is recorded"""
    S = Step(P, role, 6)
    fn = S.fn
    arr, ln = S.ptr('complaints'), S.field('complaints_len')
    keeps = {}
    for b in fn.rpo:
        for i in b.instrs:
            if i.op == 'store' and fn.base(fn.val(i.ops[1]))[0] == arr.single() and fn.loopsof.get(b.name):
                keeps[i.uid] = i
    if not keeps:
        R.broken('%s: no complaint is kept' % S.name)
    mine = {}
    if role == 'peer':
        for b in fn.rpo:
            for i in b.instrs:
                if i.op == 'store' and fn.base(fn.val(i.ops[1]))[0] == S.ptr('my_complaints').single():
                    mine[i.uid] = i
    et, ee = exits_apart(fn)
    hs = {min(fn.loopsof[i.block.name], key=lambda h: len(fn.loops[h])) for i in keeps.values()}
    outer = {h: [g for g in fn.loops if h in fn.loops[g] and g != h] for h in hs}
    messages = {min(outer[h], key=lambda g: len(fn.loops[g])) for h in hs if outer[h]}

    def hook(st, ins):
        st = S.hook(st, ins)
        if st is None:
            return None
        if ins.uid in keeps:
            st = State(st.facts, st.must | {('kept', trunc(fn.val(ins.ops[0], ins.extra['ty'])))}, st.may)
        elif ins.uid in mine:
            st = State(st.facts, st.must | {('mine', trunc(fn.val(ins.ops[0], ins.extra['ty'])))}, st.may)
        elif ins.op == 'store' and role == 'tp':
            f = recfield(S, ins)
            if f and f[0] == 'peer':
                st = State(st.facts, st.must | {('recd',)}, st.may)
        return st

    def edge(st, b, s):
        st = ee(st, b, s)
        if s.name in hs:
            st = State(st.facts, frozenset(t for t in st.must if t[0] not in ('kept', 'mine', 'recd')), st.may)
        for h in fn.loopsof.get(b.name, ()):
            if h in hs and s.name not in fn.loops[h]:
                if not complete(st, h):
                    st = State(st.facts, st.must, st.may | {('early', fn.where(b.instrs[-1]))})
                st = State(st.facts, st.must | {('looked', h)}, st.may)
        if s.name in messages:
            st = State(st.facts, frozenset(t for t in st.must if t[0] not in ('looked', 'recd')), st.may)
        return st
    data = {}
    for i in keeps.values():
        h = min(fn.loopsof[i.block.name], key=lambda h: len(fn.loops[h]))
        v = trunc(fn.val(i.ops[0], i.extra['ty']))
        lds = [a for a in v.aset() if a[0] == 'ld' and fn.within(a[1], S.argi)]
        data[h] = (v, lds[0] if len(lds) == 1 else None)

    def complete(st, h):
        v, ld = data[h]
        if ld is None:
            return False
        k = poly(fn.ivinfo[h]['k'])
        cnt = poly(('ld', ld[1] - k - 1, 1, ld[3], False))
        st = flow.instantiate(st, [fn.ivinfo[g]['k'] for g in outer[h]])
        return any(prove(f, k - cnt) for f in (st.facts, relin(st.facts)))

    def empty(st, h):
        """the message is known to carry no complaint"""
        ld = data[h][1]
        if ld is None:
            return False
        cnt = poly(('ld', ld[1] - poly(fn.ivinfo[h]['k']) - 1, 1, ld[3], False))
        st = flow.instantiate(st, [fn.ivinfo[g]['k'] for g in outer[h]])
        return any(prove(f, poly(0) - cnt) for f in (st.facts, relin(st.facts)))
    F = flow.forall_facts(fn, hook, lambda st: (S.track(st), et(st), frozenset(t for t in st.must if t[0] in ('kept', 'mine', 'recd', 'looked'))),
                          S.init, lambda st: 'rec' in st.may, edge, maxkeys=2000)
    for h in sorted(hs):
        v, ld = data[h]
        w = fn.where([i for i in keeps.values()][0])
        good = ld is not None
        if good:
            k = poly(fn.ivinfo[h]['k'])
            sender = divide(v - poly(ld), poly(256))
            M = ld[1] - k - 1 - P.HDR
            good = sender is not None and (v - poly(ld)).coef(ld) == 0
        if not R.ok(good, 'pairs', w, '%s: what is kept is not (complainer, accused)' % S.name):
            continue
        sids = set()
        for i in fn.calls('crypto_sign_verify_detached'):
            V = fn.args(i)[0]
            # the same message, maybe in another loop over the messages
            ren = [(a, b) for a in V.aset() for b in M.aset() if a[0] == b[0] == 'k' and V.subst(a, poly(b)) == M]
            if V == M or ren:
                for x in S.senders(V):
                    sids.add(x if V == M else x.subst(ren[0][0], poly(ren[0][1])))
        R.ok(any(sender == x for x in sids), 'pairs', w, '%s: the complainer kept (%s) is not the sender of the message' % (S.name, show(sender)))
        for i in keeps.values():
            old = fn.load_at(i, ln, S.F['complaints_len'][1])
            at = divide(fn.val(i.ops[1]) - arr, poly(2))
            R.ok(at is not None and any(j.op == 'store' and fn.val(j.ops[1]) == ln and trunc(fn.val(j.ops[0], j.extra['ty'])) == at + 1
                     for j in i.block.instrs), 'pairs', fn.where(i), '%s: a complaint is kept without being counted' % S.name)
        for b, st in ends(fn, F, h, lambda s: s):
            w = fn.where(b.instrs[-1])
            tags = {t[0] for t in st.must}
            dup = any(pol and f[0] == 'eq' and any(a[0] == 'ld' and fn.base(a[1])[0] == arr.single() for a in f[1].aset())
                      and (f[1].coef(ld) or any(t in all_atoms(f[1]) for t in (ld,))) for f, pol in st.facts)
            R.ok('kept' in tags or 'recd' in tags or (dup and role == 'peer'), 'collected', w, '%s: a complaint is ignored' % S.name)
            if role == 'peer' and 'kept' in tags and answers:
                other = st.holds(Eq(poly(ld), S.num('index'))) is False
                m = [t[1] for t in st.must if t[0] == 'mine']
                R.ok(other or (m and m[0] == sender), 'collected', w, '%s: a complaint about oneself is not noted for its answer' % S.name)
                R.ok(not m or st.holds(Eq(poly(ld), S.num('index'))) is True, 'collected', w, '%s: answers complaints about somebody else' % S.name)
        for g in messages & set(outer[h]):
            for b, st in ends(fn, F, g, lambda s: s):
                if b.name not in fn.loops[h]:
                    R.ok(('looked', h) in st.must or ('recd',) in st.must or 'rec' in st.may or empty(st, h), 'collected', fn.where(b.instrs[-1]),
                         '%s: the complaints of a message are not looked at' % S.name)
    for r, st in F.success_states():
        e = [t[1] for t in st.may if t[0] == 'early']
        R.ok(not e, 'collected', e[0] if e else fn.where(r), '%s: succeeds though not all complaints of a message were looked at' % S.name)


def routes(R, P):
    for role in ('tp', 'peer'):
        done = {}
        S = Step(P, role, 6)
        for r, st, c in [(r, t, c) for r, st in S.facts.success_states() for t, c in cells(st, 'step')]:
            R.ok(advance_ok(P, S, role, 6, c, st, r, done), 'ends', '%s, %s' % (S.name, S.fn.where(r)),
                 'with complaints present the run goes on to step %s instead of the dispute' % c)
        S = Step(P, role, 7)
        suc = S.facts.success_states()
        if role == 'tp':
            R.ok(not suc, 'ends', S.name, 'the dispute step of the trusted party can succeed')
        for r, st, c in [(r, t, c) for r, st, v in S.facts.returns() for t, c in cells(st, 'step')]:
            R.ok(c is not None and final(P, role, c, done), 'ends', '%s, %s' % (S.name, S.fn.where(r)),
                 'after the dispute step the run is not over (step %s)' % c)


def revealing(R, P):
    """the accused answers every complaint with the key of the channel to the complainer"""
    S = Step(P, 'peer', 7)
    fn = S.fn
    n = 0
    for c in fn.calls('memcpy', 'memmove'):
        a = fn.args(c)
        if not fn.within(a[0], S.argo) or fn.base(a[0])[0] is None or poly(fn.base(a[0])[0]) != S.output:
            continue
        s = session_of_key(fn, a[1])
        if s is None:
            continue
        n += 1
        w = fn.where(c)
        hs = fn.loopsof.get(c.block.name, ())
        good = False
        if hs and a[2].const() == 32:
            k = poly(fn.ivinfo[hs[-1]]['k']) if len(hs) == 1 else None
            name, off = S.fieldname(s.single()[1])
            tok = [i for b in fn.rpo for i in b.instrs if i.op == 'store' and fn.val(i.ops[1]) == a[0] - 1]
            who = fn.val(tok[0].ops[0], tok[0].extra['ty']) if tok else None
            q = divide(off, poly(8)) if off is not None else None
            good = k is not None and name == 'noise_outs' and who is not None and q == who - 1 and a[0] - 1 == S.output + P.HDR + k * 33
            x = who.single() if who is not None else None
            good = good and x and x[0] == 'ld' and x[1] == S.ptr('my_complaints') + k
            F = S.facts
            for b, t, st in leaving(fn, F, hs[-1]):
                if b.name == hs[-1] and not noreturn(t):
                    R.ok(prove(st.facts, k - S.num('my_complaints_len')), 'reveal', fn.where(b.instrs[-1]), '%s: not every complaint is answered' % S.name)
        R.ok(good, 'reveal', w, '%s: what is revealed is not (complainer, key of the channel to that complainer) for each complaint' % S.name)
    if not n:
        R.broken('%s: no key is revealed' % S.name)


def dispute(R, P, X, rule=None):
    """who is blamed in a dispute"""
    S = Step(P, 'tp', 7)
    fn = S.fn
    cs = [c for c in checks(fn) if c.h]
    if not cs:
        R.broken('%s: no check of shares found' % S.name)
    c = cs[0]
    ra, rb, rl, rm = (rule,) * 4 if rule else ('blame', 'blame', 'unanswered', 'match')
    keys = {fn.args(i)[3] for i in fn.calls('crypto_auth_verify')} | {fn.args(i)[0] for i in fn.calls('Noise_XK_aead_decrypt')}
    outer = [g for g in fn.loops if c.h in fn.loops[g] and g != c.h]
    Ms = {}
    for i in fn.calls('crypto_sign_verify_detached'):
        M = fn.args(i)[0]
        if fn.within(M, S.argi):
            Ms.setdefault(M, set()).update(S.senders(M))
    frm = P.msg['from'][0]

    def accused(v, st):
        for M, fs in Ms.items():
            a = poly(('ld', M + frm, 1, None, False))
            if trunc(v) == a or any(x[0] == 'ld' and x[1] == M + frm and trunc(v) == poly(x) for x in v.aset()) or any(trunc(v) == f or same(st, v, f) for f in fs):
                return True
        return False

    def complainer(v):
        x = trunc(v).single()
        return bool(x and x[0] == 'ld' and any(x[1] == K - 1 for K in keys))
    hook0, settle, reset = verdicts(fn, cs, S.hook)

    def hook(st, ins):
        st = hook0(st, ins)
        if st is None or ins.op != 'store':
            return st
        f = recfield(S, ins)
        if f and f[1] is not None:
            v = f[1]
            if f[0] == 'error':
                k = st.known(v)
                v = poly(k) if k is not None else v
            st = State(st.facts, frozenset(t for t in st.must if t[:2] != ('rf', f[0])) | {('rf', f[0], v)}, st.may)
        return st
    all_h = set(fn.loops)
    inner = {h for h in fn.loops if h in fn.loops[c.h] and h != c.h}

    def edge(st, b, s):
        st = reset(settle(st), b, s)
        if s.name in all_h and s.name not in inner:
            st = State(st.facts, frozenset(t for t in st.must if t[0] != 'rf'), st.may)
        return st
    et, ee = exits_apart(fn)
    F = Facts(fn, hook, lambda st: (S.track(st), et(st), frozenset(t for t in st.must if t[0] in ('verified', 'refuted', 'rf'))), S.init,
              lambda st, b, s: ee(edge(st, b, s), b, s), 4000)

    def rec(st):
        return {t[1]: t[2] for t in st.must if t[0] == 'rf'}

    def blamed(st, r):
        vs = valueset(fn, r['error'])
        if vs is None or 'step' not in r or r['step'].const() is None:
            return None
        vs = {x for x in vs if st.holds(Eq(r['error'], x)) is not False}
        cul = {o[0] for x in vs for o in X.of(r['step'].const(), x)}
        if len(cul) != 1:
            return None
        return r.get(cul.pop())
    n = 0
    for b, st in ends(fn, F, c.h, settle):
        n += 1
        w = fn.where(b.instrs[-1])
        r = rec(st)
        if not R.ok('error' in r and 'peer' in r, ra, w, '%s: a revealed key is dealt with without recording who cheated' % S.name):
            continue
        v = blamed(st, r)
        if ('verified',) in st.must:
            R.ok(v is not None and complainer(v), ra, w, '%s: the revealed share verifies but not (only) the complainer is blamed (reason %s)' % (S.name, show(r['error'])))
        else:
            both = v is not None and 'other_peer' in r and eq0(st, r['peer'] - r['other_peer']) and complainer(v)      # complained about oneself
            R.ok(v is not None and (accused(v, st) or both), ra, w, '%s: the revealed share was not verified but not (only) the accused is blamed (reason %s)' % (S.name, show(r['error'])))
    if not n:
        R.broken('%s: no dispute loop' % S.name)
    if rule:
        return
    # what is checked: the stored share of the accused for the complainer, opened with the revealed key
    who = equation(R, fn, S.name, c, S.num('t'), S.ptr('commitments'), None, 33,
                   lambda x: complainer(x) or bool(x.single() and x.single()[0] == 'ld' and x.single()[1] == c.share - 1))
    sts = F.states_before(c.cmp)
    w = fn.where(c.cmp)
    for st in sts:
        R.ok(who is not None and accused(who + 1, st), 'opened', w, '%s: the commitments used are not those of the accused' % S.name)
    dec = [i for i in fn.calls('Noise_XK_aead_decrypt') if fn.args(i)[5] == c.share - 1 or c.share == fn.args(i)[5] + 1]
    R.ok(len(dec) == 1, 'opened', w, '%s: the share checked is not the decrypted one' % S.name)
    for i in dec:
        a = fn.args(i)
        nm, off = S.fieldname(a[6])
        ok = nm == 'encrypted_shares'
        lds = [x for x in (off.aset() if off is not None else ()) if x[0] == 'ld' and any(x[1] == K - 1 for K in keys)]
        R.ok(ok and bool(lds), 'opened', fn.where(i), '%s: what is decrypted is not the stored share for the complainer' % S.name)
    # the list of complaints still to be settled
    marks = [(i, fn.val(i.ops[1])) for b in fn.rpo for i in b.instrs if i.op == 'store' and b.name in fn.loops[c.h] and
             P.mod.types.size(i.extra['ty']) == 2 and fn.val(i.ops[0], i.extra['ty']).const() is not None]
    if not marks:
        R.bad('match', w, '%s: settled complaints are not marked' % S.name)
        return
    arr = fn.base(marks[0][1])[0]
    mark = fn.val(marks[0][0].ops[0], marks[0][0].extra['ty']).const() % 65536
    R.ok(mark >> 8 > 128 or mark & 255 == 0 or mark & 255 > 128 or mark >> 8 == 0, 'match', fn.where(marks[0][0]), '%s: the mark of a settled complaint is a possible complaint' % S.name)
    for i, a in marks:
        for st in F.states_before(i):
            good = False
            for f, pol in st.facts:
                if pol and f[0] == 'eq':
                    ats = f[1].aset()
                    e = [x for x in ats if x[0] == 'ld' and x[1] == a]
                    if e:
                        cf = f[1].coef(e[0])
                        rest = (poly(e[0]) - f[1] * cf) if cf in (1, -1) else None
                        good = good or (rest is not None and pair(rest, st, accused, complainer))
            R.ok(good, 'match', fn.where(i), '%s: marks a complaint as settled that is not the one the key was revealed for' % S.name)
    # every complaint left is blamed on the accused
    rest = [h for h in fn.loops if h not in fn.loops[c.h] and c.h not in fn.loops[h] and any(
        i.op == 'store' and recfield(S, i) for bn in fn.loops[h] for i in fn.f.blocks[bn].instrs)]
    if not R.ok(len(rest) == 1, 'unanswered', S.name, 'unanswered complaints are not gone through'):
        return
    h = rest[0]
    k = poly(fn.ivinfo[h]['k'])
    cl = S.num('complaints_len')
    el = {fn.val(i.ops[0]) for bn in fn.loops[h] for i in fn.f.blocks[bn].instrs if i.op == 'load' and fn.base(fn.val(i.ops[0]))[0] == arr}
    el = {x for x in el if x - 1 not in el}
    at = el.pop() if len(el) == 1 else None
    up, down = poly(arr) + k * 2, poly(arr) + (cl - 1 - k) * 2
    R.ok(at in (up, down), 'unanswered', S.name, 'not every complaint is looked at in turn')
    for b, st in ends(fn, F, h, settle):
        w = fn.where(b.instrs[-1])
        r = rec(st)
        if 'error' not in r:
            e = [f for f, pol in st.facts if pol and f[0] == 'eq' and any(x[0] == 'ld' and x[1] == at and
                 (poly(x) - f[1] * f[1].coef(x)).const() is not None and (poly(x) - f[1] * f[1].coef(x)).const() % 65536 == mark for x in f[1].aset())]
            R.ok(bool(e), 'unanswered', w, '%s: an unanswered complaint is ignored' % S.name)
        else:
            v = blamed(st, r)
            R.ok(v is not None and lowbyte(v, at), 'unanswered', w, '%s: for an unanswered complaint somebody else than the accused is blamed' % S.name)
            R.ok('other_peer' in r and highbyte(r['other_peer'], at), 'unanswered', w, '%s: for an unanswered complaint not the complainer is reported as such' % S.name)
    for b, s, st in leaving(fn, F, h):
        if b.name == h:
            R.ok(prove(st.facts, k - cl), 'unanswered', fn.where(b.instrs[-1]), '%s: not all complaints are looked at' % S.name)
    if arr[0] == 'alloca':
        # the list is a copy of all complaints
        G = setfacts(fn, S.hook, S.init)
        first = [i for bn in fn.loops[c.h] for i in fn.f.blocks[bn].instrs if i.op == 'load' and fn.base(fn.val(i.ops[0]))[0] == arr]
        el = []
        for i in first[:1]:
            el = [x for st in G.states_before(i) for x in all_elements(st, poly(arr), 2, cl)]
        R.ok(any(x.single() and x.single()[0] == 'ld' and S.fieldname(x.single()[1])[0] == 'complaints' for x in el), 'match', S.name,
             'the complaints to be settled are not all complaints collected')


def pair(v, st, accused, complainer):
    """v is complainer << 8 | accused"""
    hi = [x for x in v.aset() if complainer(poly(x))]
    return len(hi) == 1 and v.coef(hi[0]) == 256 and accused(v - poly(hi[0]) * 256, st)


def lowbyte(v, addr):
    a = poly(v).single()
    while a and a[0] in ('trunc', 'zext'):
        a = poly(a[2]).single()
    if a and a[0] == 'op' and a[1] == 'and' and len(a) > 3:
        c = [x for x in a[2:] if isinstance(x, (Poly, int)) and poly(x).const() == 255]
        l = [poly(x).single() for x in a[2:] if isinstance(x, (Poly, int)) and poly(x).single()]
        return bool(c) and any(x[0] == 'ld' and x[1] == addr for x in l)
    return bool(a and a[0] == 'ld' and a[1] == addr)


def highbyte(v, addr):
    a = poly(v).single()
    while a and a[0] in ('trunc', 'zext'):
        a = poly(a[2]).single()
    if a and a[0] == 'op' and a[1] in ('ashr', 'lshr'):
        l = [poly(x).single() for x in a[2:] if isinstance(x, (Poly, int))]
        return any(x and x[0] == 'ld' and x[1] == addr for x in l) and any(isinstance(x, (Poly, int)) and poly(x).const() == 8 for x in a[2:])
    return bool(a and a[0] == 'ld' and a[1] == addr + 1)


def check(R):
    R.rule('equation', 'the share check compares all 32 bytes of the image of the share with the evaluation of all commitments of the same peer')
    R.rule('complain', 'every iteration over the other peers ends with the share verified or with a complaint, and all peers are gone through')
    R.rule('exactly', 'a complaint names the peer whose share was refuted, is counted, and is made for refuted shares only')
    R.rule('kept', 'complaints once made are not overwritten')
    R.rule('pairs', 'complaints are kept and counted as (sender of the message, accused)')
    R.rule('collected', 'a step collecting complaints succeeds only after each complaint of each message was kept (or its sender recorded)')
    R.rule('ends', 'with complaints present the next step is the dispute, which ends the run; the trusted party\'s never succeeds')
    R.rule('reveal', 'the accused answers each complaint with the complainer\'s index and the key of the channel to it')
    R.rule('blame', 'every revealed key leads to a record blaming the complainer if the share verified and the accused otherwise')
    R.rule('opened', 'what is checked in a dispute is the stored share of the accused for the complainer against the accused\'s commitments')
    R.rule('match', 'a complaint is settled only by a key revealed for it')
    R.rule('unanswered', 'each complaint not settled is blamed on the accused')
    P = Proto()
    R.sources = P.sources
    SH = P.size('TOPRF_Share') if 'TOPRF_Share' in P.st else 33
    S = Step(P, 'peer', 5)
    D = S.output + P.HDR
    complaining(R, S.fn, S.name, S.num('n'), S.num('t'), S.num('index'), S.ptr('commitments'), S.ptr('xshares'), SH, D + 1, D, S.hook, S.init, S.track)
    fn = P.func('dkg_verify_commitments')
    a = fn.arg
    complaining(R, fn, 'dkg_verify_commitments', a(0), a(1), a(2), a(3), a(4), SH, a(5), a(6), None, State(), None, True)
    collecting(R, P, 'tp')
    collecting(R, P, 'peer')
    routes(R, P)
    revealing(R, P)
    dispute(R, P, Explain(P))
    for r, n in (('equation', 9), ('complain', 4), ('exactly', 6), ('pairs', 6), ('collected', 4), ('ends', 6), ('reveal', 1), ('blame', 4), ('opened', 3), ('match', 2), ('unanswered', 3)):
        R.floor(r, n)
