"""P11 all secrets and nonces come fresh from the system CSPRNG"""
TECHNIQUE = 'definite-initialisation typestate (only generator calls define, every other write destroys) over inlined LLVM IR'
NOTE = 'all paths of key generation, blinding, sharing and session start functions; loops by induction over the coefficient index'
from proto import *
from common import *
from msgs import reads_of

# call -> (argument, bytes filled); sizes in ('a', i) come from argument i
GEN = {'crypto_core_ristretto255_scalar_random': (0, 32), 'randombytes_buf': (0, ('a', 1)), 'randombytes': (0, ('a', 1)),
       'crypto_sign_keypair': (1, 64), 'crypto_core_ristretto255_random': (0, 32)}
WIPE = ('sodium_memzero', 'sodium_munlock', 'explicit_bzero')
NOREAD = ('sodium_mlock',) + WIPE


def fresh_write(fn, ins, addr, size, depth=3):
    """the write performed by ins leaves size bytes of new randomness at addr"""
    if ins.op != 'call':
        return False
    a = fn.args(ins)
    if ins.callee in GEN:
        ai, n = GEN[ins.callee]
        n = a[n[1]] if isinstance(n, tuple) else poly(n)
        d = (addr - a[ai]).const()
        if d is None or d < 0:
            return False
        r = n - d - size
        return r.const() is not None and r.const() >= 0
    if depth == 0:
        return False
    if ins.callee in ('memcpy', 'memmove'):
        d = (addr - a[0]).const()
        if fn.base(a[1])[0][0] != 'alloca':
            return False                  # another secret, or not a secret at all
        return d is not None and fresh_at(fn, ins, a[1] + d, size, depth - 1)
    if ins.callee == 'crypto_core_ristretto255_scalar_reduce' and addr == a[0]:
        return fresh_at(fn, ins, a[1], 64, depth - 1)
    return False


def fresh_at(fn, ins, addr, size, depth=3):
    ds = fn.defs_at(ins, addr, size)
    return bool(ds) and all(d != 'entry' and d[1] == 'must' and fresh_write(fn, d[0], addr, size, depth) for d in ds)


def is_const_write(fn, ins):
    if ins.op == 'store':
        return fn.val(ins.ops[0], ins.extra['ty']).const() is not None
    return ins.callee in WIPE or (ins.callee == 'memset' and fn.args(ins)[1].const() is not None)


def touches(fn, addr, size, w):
    return w[1] == fn.base(addr)[0] and not fn.disjoint(addr, size, w[2], w[3])


def fixed(R, fn, name, what, addr, size, base=None, init=State(), track=None):
    """object of known place: fresh at every success return and at every read"""
    tag = ('fresh', what)
    where = [None]

    def hook(st, ins):
        if base:
            st = base(st, ins)
            if st is None:
                return None
        if ins.op in ('store', 'call'):
            for w in fn.writes_of(ins):
                if touches(fn, addr, size, w):
                    if fresh_write(fn, ins, addr, size):
                        where[0] = ins
                        st = st.add(tag)
                    else:
                        st = State(st.facts, st.must - {tag}, st.may)
        return st
    F = Facts(fn, hook, track, init)
    w0 = name if where[0] is None else fn.where(where[0])
    for r, st in F.success_states():
        R.ok(tag in st.must, 'filled', w0, '%s: returns successfully without %s being completely fresh from the random generator' % (name, what))
    for c in fn.calls():
        if c.callee in NOREAD or c.callee.startswith('llvm.') or c.callee in fn.logonly:
            continue
        for a, n in reads_of(fn, c):
            if fn.base(a)[0] == fn.base(addr)[0] and not fn.disjoint(addr, size, a, n) and a != ZERO:
                for st in F.states_before(c):
                    R.ok(tag in st.must, 'used', fn.where(c), '%s: %s is used before it is drawn from the random generator' % (name, what))


def arrays(R, fn, name, need=False, positive=None):
    """local arrays of scalars drawn from the generator: every element fresh when read, never overwritten before"""
    gens = []
    for c in fn.calls('crypto_core_ristretto255_scalar_random', 'randombytes_buf', 'randombytes', 'crypto_core_ristretto255_scalar_reduce'):
        b = fn.base(fn.args(c)[0])[0]
        if b is not None and b[0] in ('alloca', 'glob'):
            gens.append((c, b))
    if not gens:
        if need:
            R.bad('coefficients', fn.where(fn.f.entry.instrs[0]), '%s: no polynomial coefficient is drawn from the random generator' % name)
            R.saw('coefficients', name)
        return
    bases = {b for c, b in gens}
    # thresholds are at least 1 (sessions: at least 2, decided by P12)
    S = setfacts(fn, init=assume(State(), Ge(positive - 1)) if positive is not None else State())
    for X in sorted(bases, key=repr):
        fresh = [c for c, b in gens if b == X and fresh_write(fn, c, fn.args(c)[0], 32)]
        reads = []
        for c in fn.calls():
            if c.callee in NOREAD or c.callee.startswith('llvm.') or c.callee in fn.logonly:
                continue
            for a, n in reads_of(fn, c):
                if fn.base(a)[0] == X:
                    reads.append((c, a, n))
        rd = {c.uid for c, _, _ in reads}
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op == 'load' and fn.base(fn.val(ins.ops[0]))[0] == X:
                    reads.append((ins, fn.val(ins.ops[0]), poly(fn.mod.types.size(ins.ty))))
                    rd.add(ins.uid)
                if ins.op not in ('store', 'call'):
                    continue
                for w in fn.writes_of(ins):
                    if w[1] != X or ins in fresh:
                        continue
                    if is_const_write(fn, ins):
                        good = all(fn.idominates(ins, c) for c in fresh) or not reaches(fn, ins, rd)
                    elif ins.op == 'call' and ins.callee in ('crypto_core_ristretto255_scalar_reduce', 'memcpy', 'memmove'):
                        good = fresh_write(fn, ins, fn.args(ins)[0], 32)
                    else:
                        good = False
                    R.ok(good, 'coefficients', fn.where(ins), '%s: random coefficients are overwritten or derived from something else' % name)
        for c, a, n in reads:
            good = fresh_at(fn, c, a, n.const() or 32) if n is not None else False
            if not good:
                sts = S.states_before(c)
                good = bool(sts) and all(covered(fn, st, fresh, a) for st in sts)
            R.ok(good, 'coefficients', fn.where(c), '%s: a coefficient may be used that was not drawn from the random generator' % name)


def covered(fn, st, fresh, addr):
    ids = {c.uid for c in fresh}
    for f, pol in st.facts:
        if f[0] != 'all' or f[3][0][0] != 'blk':
            continue
        k, B, g = f[1], f[2], f[3][0]
        if g[3] not in ids:
            continue
        A0 = deep(g[1], k, poly(0))
        step = deep(g[1], k, poly(1)) - A0
        s = step.const()
        n = g[2].const() if isinstance(g[2], Poly) else g[2]
        if s is None or s <= 0 or n is None or n < s:
            continue
        d = addr - A0
        if any(c % s for m, c in d.t):
            continue
        q = Poly({m: c // s for m, c in d.t})
        if prove(st.facts, q) and prove(st.facts, B - 1 - q):
            return True
    return False


def reaches(fn, ins, uids):
    b = ins.block
    later = b.instrs[b.instrs.index(ins) + 1:]
    if any(i.uid in uids for i in later):
        return True
    seen, work = set(), list(fn.succ(b))
    while work:
        x = work.pop()
        if x.name in seen:
            continue
        seen.add(x.name)
        if any(i.uid in uids for i in x.instrs):
            return True
        work += list(fn.succ(x))
    return False


def session(R, P):
    """session id and session keys of both roles"""
    for role, objs in (('tp', ('sessionid', 'sig_sk')), ('peer', ('sig_sk', 'noise_sk'))):
        steps = [Step(P, role, 'start')] + [Step(P, role, s) for s in range(0, 10 if role == 'tp' else 11)]
        for o in objs:
            off, size = P.of(role)[o]
            gen = None
            for i, S in enumerate(steps):
                fn, addr = S.fn, S.ctx + off
                ws = [(ins, w) for b in fn.rpo for ins in b.instrs if ins.op in ('store', 'call')
                      for w in fn.writes_of(ins) if touches(fn, addr, size, w)]
                if not ws:
                    continue
                if gen is None:
                    gen = i
                    fixed(R, fn, S.name, o, addr, size, S.hook, S.init, S.track)
                else:
                    for ins, w in ws:
                        R.ok(is_const_write(fn, ins) or fresh_write(fn, ins, addr, size), 'kept', fn.where(ins),
                             '%s: %s is overwritten with something that is not fresh' % (S.name, o))
            R.ok(gen is not None, 'generated', '%s %s' % (role, o), '%s: %s is never drawn from the random generator' % (role, o))
            if gen:
                for S in steps[:gen]:
                    for c in S.fn.calls():
                        for a, n in reads_of(S.fn, c):
                            if c.callee not in S.fn.logonly and S.fn.base(a)[0] == S.fn.base(S.ctx)[0] and not S.fn.disjoint(S.ctx + off, size, a, n):
                                R.bad('used', S.fn.where(c), '%s: %s is used before it is generated' % (S.name, o))
    n = 0
    for s in range(0, 11):
        S = Step(P, 'peer', s)
        for c in S.fn.calls('Noise_XK_device_create'):
            n += 1
            a = S.fn.args(c)
            R.ok(a[4] == S.field('noise_sk'), 'used', S.fn.where(c), '%s: the channel device does not use the generated channel key' % S.name)
    if not n:
        R.broken('no creation of a channel device found')


def noise(R):
    """ephemeral keys and nonces of the channel layer"""
    import build
    text, src = build.noise()
    R.sources += src
    mod = ir.parse_module(text)
    for name in ('Noise_XK_session_create_initiator', 'Noise_XK_session_create_responder'):
        if name not in mod.fns:
            raise Broken('function %s not found' % name)
        fn = Fn(mod, name)
        gens = [c for c in fn.calls('randombytes_buf', 'randombytes') if fn.args(c)[1].const() == 32]
        R.ok(bool(gens), 'ephemeral', name, '%s: no ephemeral key is drawn from the random generator' % name)
        for g in gens:
            X = fn.args(g)[0]
            for b in fn.rpo:
                for ins in b.instrs:
                    if ins.op in ('store', 'call') and ins is not g:
                        for w in fn.writes_of(ins):
                            if touches(fn, X, 32, w) and not (is_const_write(fn, ins) and fn.idominates(ins, g)):
                                R.ok(is_const_write(fn, ins) and not reads_after(fn, ins, X), 'ephemeral', fn.where(ins),
                                     '%s: the ephemeral key is overwritten after having been drawn' % name)
            use = [c for c in fn.calls() if c is not g and not c.callee.startswith('llvm.')
                   for a, n in reads_of(fn, c) if fn.base(a)[0] == fn.base(X)[0] and c.callee not in NOREAD]
            for c in use:
                R.ok(fn.idominates(g, c), 'ephemeral', fn.where(c), '%s: the ephemeral key is used before having been drawn' % name)


def reads_after(fn, ins, X):
    return reaches(fn, ins, {c.uid for c in fn.calls() if c.callee not in NOREAD and not c.callee.startswith('llvm.')
                             for a, n in reads_of(fn, c) if fn.base(a)[0] == fn.base(X)[0]})


def check(R):
    R.rule('filled', 'at every successful return the whole secret was last written by a generator call (or a copy/reduction of one)')
    R.rule('used', 'every read of the secret happens after it was filled by the generator')
    R.rule('coefficients', 'every polynomial coefficient read was filled by the generator (by induction over the filling loop), and '
                           'coefficients have no other writer')
    R.rule('generated', 'each session secret is drawn from the generator in the first function writing it')
    R.rule('kept', 'no later step overwrites a session secret with something not fresh')
    R.rule('substitute', 'the library does not replace the random generator')
    R.rule('ephemeral', 'the channel layer draws each ephemeral key from the generator before use and does not overwrite it')
    P = Proto()
    R.sources = list(P.sources)
    for name, ai in (('oprf_KeyGen', 0), ('oprf_Blind', 2)):
        fn = P.func(name)
        fixed(R, fn, name, 'key' if ai == 0 else 'blinding factor', fn.arg(ai), 32)
    for name, f in sorted(P.mod.fns.items()):
        if not f.blocks or f.linkage == 'internal' or name in ('tpdkg_tp_next', 'tpdkg_peer_next'):
            continue
        fn = P.func(name)
        th = {'toprf_create_shares': 2, 'dkg_start': 1, 'toprf_mpc_mul_start': 3}.get(name)
        arrays(R, fn, name, th is not None, fn.arg(th) if th is not None else None)
    for s in range(0, 11):
        S = Step(P, 'peer', s)
        arrays(R, S.fn, S.name, positive=S.num('t'))
    session(R, P)
    for name, f in P.mod.fns.items():
        for b in f.blocks.values():
            for ins in b.instrs:
                if ins.op == 'call' and ins.callee == 'randombytes_set_implementation':
                    R.bad('substitute', P.mod.where(ins), name + ': replaces the random generator')
        R.saw('substitute', name)
    noise(R)
    R.floor('filled', 5)
    R.floor('coefficients', 5)
    R.floor('used', 4)
