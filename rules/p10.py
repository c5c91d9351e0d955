"""P10 locked secret memory is unlocked and erased on every way out"""
TECHNIQUE = 'lock/unlock typestate as may/must dataflow over inlined LLVM IR'
NOTE = 'all paths of every exported function and protocol step; buffers identified by address and length polynomials'
from proto import *
from common import *

WIPE = {'sodium_memzero': 1, 'explicit_bzero': 1, 'sodium_munlock': 1}


def constant_write(fn, ins):
    if ins.op == 'store':
        return fn.val(ins.ops[0], ins.extra['ty']).const() is not None
    if ins.callee == 'memset':
        return fn.args(ins)[1].const() is not None
    return ins.callee in WIPE


def locks(R, fn, name, base=None, init=State(), track=None):
    calls = fn.calls('sodium_mlock')
    if not calls:
        return
    R.saw('functions', name)
    info = {}
    for c in calls:
        a = fn.args(c)
        info[c.uid] = (c, a[0], a[1], Eq(fn.val(('loc', c.name), c.ty)))
    bases = {}
    for u, (c, a, n, ok) in info.items():
        bases.setdefault(fn.base(a)[0], set()).add(u)
    badlen = []

    def hook(st, ins):
        if base:
            st = base(st, ins)
            if st is None:
                return None
        if ins.uid in info:
            may = frozenset(t for t in st.may if t[1:] != (ins.uid,))
            st = State(st.facts, frozenset(t for t in st.must if t[1:] != (ins.uid,)), may | {('locked', ins.uid)})
        elif ins.op == 'call' and ins.callee == 'sodium_munlock':
            a = fn.args(ins)
            drop = set()
            for t in st.may:
                if t[0] == 'locked':
                    c, la, ln, ok = info[t[1]]
                    if la == a[0] and ln == a[1]:
                        drop.add(t)
                    elif fn.base(la)[0] == fn.base(a[0])[0] and (ins, c) not in badlen:
                        badlen.append((ins, c))
            st = State(st.facts, frozenset(t for t in st.must if t[0] != 'held' or ('locked', t[1]) not in drop), st.may - drop)
        return st

    def settle(st):
        may, must = set(st.may), set(st.must)
        for t in st.may:
            if t[0] == 'locked':
                h = st.holds(info[t[1]][3])
                if h is True:
                    must.add(('held', t[1]))
                elif h is False:
                    may.discard(t)
        return State(st.facts, frozenset(must), frozenset(may))

    def tr(st):
        return (track(st) if track else None, frozenset(t for t in st.may if t[0] == 'locked'))
    F = Facts(fn, hook, tr, init, lambda st, b, s: settle(st))
    left = {}
    for r, st, v in F.returns():
        for t in settle(st).may:
            if t[0] == 'locked':
                left.setdefault(t[1], set()).add(fn.where(r))
    for u, (c, a, n, ok) in sorted(info.items(), key=lambda x: str(x[0])):
        R.ok(u not in left, 'released', fn.where(c), '%s: a way out leaves the buffer locked here neither unlocked nor erased' % name)
    for ins, c in badlen:
        R.bad('released', fn.where(ins), '%s: unlocks a different range than the one locked at %s' % (name, fn.where(c)))
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op not in ('store', 'call') or constant_write(fn, ins):
                continue
            for w in fn.writes_of(ins):
                if w[1] in bases:
                    us = bases[w[1]]
                    if all(fn.disjoint(info[u][1], info[u][2].const(), w[2], w[3]) for u in us if info[u][2].const() is not None) \
                            and all(info[u][2].const() is not None for u in us):
                        continue
                    good = all(any(('held', u) in s.must for u in us) for s in map(settle, F.states_before(ins)))
                    R.ok(good, 'held', fn.where(ins), '%s: data is written to the buffer while it is not locked' % name)


def ltkey(R, P):
    off, size = P.peer['lt_sk']
    uses = 0
    for s in range(0, 11):
        S = Step(P, 'peer', s)
        fn = S.fn
        lt = S.ctx + off

        def from_lt(ins, addr, depth=3):
            if fn.within(addr, 0) and addr == lt:
                return True
            if depth and fn.base(addr)[0][0] == 'alloca':
                for d in fn.defs_at(ins, addr, 32):
                    if d != 'entry' and d[0].op == 'call' and d[0].callee in ('memcpy', 'memmove'):
                        a = fn.args(d[0])
                        if from_lt(d[0], a[1] + (addr - a[0]), depth - 1):
                            return True
            return False
        sigs = [c for c in fn.calls('crypto_sign_detached') if from_lt(c, fn.args(c)[4])]
        uses += len(sigs)
        ids = {c.uid for c in sigs}

        def hook(st, ins):
            st = S.hook(st, ins)
            if st is None:
                return None
            if ins.uid in ids:
                st = State(st.facts, st.must, st.may | {('lt', 'used')})
            elif ins.op == 'call' and ins.callee in ('sodium_memzero', 'explicit_bzero', 'memset', 'sodium_munlock'):
                a = fn.args(ins)
                n = a[2] if ins.callee == 'memset' else a[1]
                zero = ins.callee != 'memset' or a[1].const() == 0
                if zero and n.const() is not None and fn.base(a[0])[0] == fn.base(lt)[0]:
                    d = (lt - a[0]).const()
                    if d is not None and d >= 0 and d + size <= n.const():
                        st = State(st.facts, st.must, st.may - {('lt', 'used')})
            return st
        if sigs:
            F = Facts(fn, hook, S.track, S.init)
            for r, st, v in F.returns():
                R.ok(('lt', 'used') not in st.may, 'ltkey', fn.where(sigs[0]),
                     '%s: returns with the long-term signing key still in memory after its use' % S.name)
        for c in fn.calls('memcpy', 'memmove'):
            a = fn.args(c)
            if fn.base(a[1])[0] == fn.base(lt)[0] and not fn.disjoint(lt, size, a[1], a[2].const()):
                R.ok(fn.base(a[0])[0][0] == 'alloca', 'ltkey', fn.where(c), '%s: makes a lasting copy of the long-term signing key' % S.name)
    if not uses:
        R.broken('no signature with the long-term key found in any peer step')


def check(R):
    R.rule('released', 'on no path does a function return while a buffer whose lock may have succeeded has not been unlocked over '
                       'exactly the locked range')
    R.rule('held', 'data other than constants is written to a buffer that gets locked only while the lock is known to have succeeded')
    R.rule('ltkey', 'after signing with the long-term key every return is reached only after wiping the whole key')
    P = Proto()
    R.sources = P.sources
    for name, f in sorted(P.mod.fns.items()):
        if not f.blocks or f.linkage == 'internal' or name in ('tpdkg_tp_next', 'tpdkg_peer_next'):
            continue
        locks(R, P.func(name), name)
    for role in ('tp', 'peer'):
        for s in range(0, 10 if role == 'tp' else 11):
            S = Step(P, role, s)
            locks(R, S.fn, S.name, S.hook, S.init, S.track)
    ltkey(R, P)
    R.floor('released', 1)
    R.floor('ltkey', 1)
