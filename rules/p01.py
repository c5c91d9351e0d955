"""P01 signatures cover whole messages"""
TECHNIQUE = 'must-fact dataflow and write-after-sign analysis over inlined LLVM IR'
NOTE = 'all paths of every protocol step; relies on libsodium signatures and on distinct buffers not overlapping'
from msgs import *
from emit import *
from proto import cellhook


def check(R):
    P = load(R)
    R.rule('verify', 'wherever bytes of a received message are consumed, a successful signature verification from the end of '
                     'the signature field over exactly the declared length, under the key kept for the expected sender, '
                     'has been established for the message containing them')
    R.rule('complete', 'a step returns 0 only with such a verification for messages that tile its whole input')
    R.rule('sign', 'each signing call signs from the end of the signature field, with the own session key, as many bytes as the '
                   'declared length stored in the header promises')
    R.rule('signed', 'each byte a step writes to its output is inside the signed range of a message signed before success, is a '
                     'signature, or is part of an accepted message passed on unchanged')
    R.rule('sealed', 'no write after the signing call can overlap the signed message, and no message passed on is altered')
    R.rule('extent', 'the signed length is the length of the whole message in the output (its slot or the whole output)')
    steps = receiving(P)
    report_uses(R, steps, ('signature',), 'verify', 25)
    report_complete(R, steps, 'complete', ('signature',), 17)
    for step in [Step(P, 'tp', 'start')] + steps:
        if step.argo is not None:
            emission(R, step)
    R.floor('sign', 12)
    R.floor('signed', 30)


def emission(R, step):
    fn = step.fn
    ss = sigs(step)
    if not ss and not outwrites(step):
        return
    for S in ss:
        if S.kind == 'lt':
            # the long-term signature of a key announcement: over the complete message in front of it
            ok = any(S.dat == T.M and same_all(step, S.ins, S.L, T.total) for T in ss if T is not S)
            R.ok(ok, 'sign', S.where, 'the long-term signature does not cover exactly the whole announcement')
            continue
        sk = S.sk
        own = S.kind == 'session' or own_key(step, S)
        R.ok(own, 'sign', S.where, 'the message is signed with a key that is not the session key of this participant')
        R.ok(S.dat == S.M + step.P.SIG, 'sign', S.where, 'the signed range does not start right behind the signature field')
        h = header(step, S)
        R.ok(h['len'] is not None and same_all(step, S.ins, h['len'], S.total), 'sign', S.where,
             'the signed length differs from the declared length of the message')
        extent(R, step, S)
    flows(R, step, ss)


def own_key(step, S):
    """start functions: key pair generated here and kept as sig_sk"""
    return S.sk == step.field('sig_sk')


def same_all(step, ins, a, b):
    if a == b:
        return True
    sts = step.states(ins)
    return bool(sts) and all(same(st, a, b) for st in sts)


def extent(R, step, S):
    """the message fills its slot: whole output, or stride between consecutive messages"""
    fn = step.fn
    n = fn.arg(step.argo - 1) if step.start else fn.arg(step.argo + 1)
    sts = step.states(S.ins)
    if S.M == step.output:
        lt = [T for T in sigs(step) if T.kind == 'lt']
        want = n - (step.P.SIG if lt else 0)
        R.ok(all(same(st, S.total, want) for st in sts), 'extent', S.where, 'the signed message is not the whole output')
        return
    # stride
    b, off = fn.base(S.M)
    for h in fn.loopsof.get(S.ins.block.name, ()):
        k = fn.ivinfo[h]['k']
        for a in (k,) + tuple(x for x in S.M.aset() if x[0] == 'cnt' and x[1] == k):
            if a in S.M.aset():
                d = Poly({tuple(x for x in m if x != a): c for m, c in S.M.t if a in m})
                R.ok(all(same(st, d, S.total) for st in sts), 'extent', S.where,
                     'the signed length differs from the distance between consecutive messages')
                return
    R.ok(step.s == 7, 'extent', S.where, 'cannot relate the signed message to the output')


def flows(R, step, ss):
    fn = step.fn
    P = step.P
    ws = outwrites(step)
    plain = {}
    cov = {}
    sess = [S for S in ss if S.kind != 'lt' and fn.within(S.M, step.argo)]
    sigw = {S.ins.uid for S in ss}
    fwd = set()
    byuid = {u.ins.uid: u for u in uses(step)} if step.argi is not None and not step.start else {}
    for (ins, addr, size) in ws:
        if ins.uid in sigw:
            continue
        plain[ins.uid] = (ins, addr, size)
        u = byuid.get(ins.uid)
        if u is not None and u.sink == 'copy':
            res = judge(step, u)
            if res and all(not m and M == u.lo and prove(st.facts, total_of(step, st, M) - u.size)
                           and prove(st.facts, u.size - total_of(step, st, M)) for st, m, M in res):
                fwd.add(ins.uid)
        cov[ins.uid] = [S for S in sess if covers(step, S, ins, addr, size)]
    sigat = {}
    for S in sess:
        sigat.setdefault(S.ins.uid, []).append(S)

    def hook(st, ins):
        st = step.hook(st, ins)
        may = set(st.may)
        if ins.uid in plain and ins.uid not in fwd or ins.uid in plain and cov[ins.uid]:
            may.add(('open', ins.uid))
        if ins.uid in fwd:
            may.add(('fwd', ins.uid))
        if ins.uid in sigat:
            S = sigat[ins.uid][0]
            for t in list(may):
                if t[0] == 'open' and S in cov[t[1]]:
                    may.discard(t)
            may.discard(('prev', ins.uid))
            may.add(('sig', ins.uid))
        if may != st.may:
            st = State(st.facts, st.must, frozenset(may))
        return st

    def edge(st, b, s):
        if (b.name, s.name) in fn.backedges:
            may = set()
            for t in st.may:
                if t[0] == 'fwd' and plain[t[1]][0].block.name in fn.loops[s.name]:
                    continue
                if t[0] == 'sig' and fn.f is not None and sblock(t[1]) in fn.loops[s.name]:
                    may.add(('prev', t[1]))
                    continue
                if t[0] == 'open':
                    w = plain[t[1]]
                    # a message of its own per iteration left unsigned when the iteration ends
                    k = fn.ivinfo[s.name]['k']
                    if w[0].block.name in fn.loops[s.name] and cov[t[1]] and all(k in all_atoms(S.M) for S in cov[t[1]]):
                        may.add(('lost', t[1]))
                        continue
                may.add(t)
            if may != st.may:
                st = State(st.facts, st.must, frozenset(may))
        return st
    bl = {S.ins.uid: S.ins.block.name for S in sess}
    sblock = lambda uid: bl[uid]
    F = Facts(fn, hook, step.track, step.init, edge)
    bad = {}
    for r, st in F.success_states():
        for t in st.may:
            if t[0] in ('open', 'lost'):
                bad[t[1]] = True
    for uid, (ins, addr, size) in plain.items():
        R.ok(uid not in bad, 'signed', '%s, %s' % (step.name, fn.where(ins)),
             'bytes written to the output are not covered by a signature when the step succeeds')
    # writes after signing
    for uid, (ins, addr, size) in list(plain.items()) + [(S.ins.uid, (S.ins, S.M, step.P.SIG)) for S in ss]:
        for st in F.states_before(ins):
            for t in st.may:
                if t[0] == 'fwd' and t[1] != uid:
                    _, faddr, fsize = plain[t[1]]
                    d = addr - faddr
                    if (d.const() is not None and d.const() >= 0 or prove(st.facts, d)) and prove(st.facts, poly(fsize) - d - 1):
                        R.ok(False, 'sealed', '%s, %s' % (step.name, fn.where(ins)), 'alters a signed message that is passed on')
                if t[0] not in ('sig', 'prev') or t[1] == uid and t[0] == 'sig':
                    continue
                S = sigat[t[1]][0]
                if not separate(fn, st, S, ins, addr, size, t[0]):
                    R.ok(False, 'sealed', '%s, %s' % (step.name, fn.where(ins)),
                         'a write after signing (%s) can change the signed message' % S.where)
        R.saw('sealed', '%s, %s' % (step.name, fn.where(ins)))


def total_of(step, st, M):
    k = Known(step.P, step, st, M)
    miss, tot = missing(step, st, k)
    return tot


def separate(fn, st, S, ins, addr, size, when):
    M = S.M
    tot = S.total
    if when == 'prev':
        for h in fn.loopsof.get(S.ins.block.name, ()):
            if ins.block.name in fn.loops[h]:
                k = fn.ivinfo[h]['k']
                M2 = deep(M, k, poly(k) - 1)
                if M2 == M:
                    for a in M.aset():
                        if a[0] == 'cnt' and a[1] == k:
                            M2 = deep(M, a, poly(a) - 1)
                M = M2
                break
    if size is not None and prove(st.facts, M - addr - poly(size)):
        return True
    return prove(st.facts, addr - M - tot)
