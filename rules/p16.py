"""P16 shares travel only encrypted and are accepted only authenticated"""
TECHNIQUE = 'value-flow and must-fact dataflow from shares to messages and back, over inlined LLVM IR'
NOTE = 'every write to the output and to the received shares in every peer step, for all group sizes'
from proto import *
from common import *
from p15 import handed, outcome

CONF, AUTH = 5, 2          # forward-secret confidentiality; authenticated sender
SECRET = ('shares', 'xshares', 'share')
SCALAR = ('crypto_core_ristretto255_scalar_add', 'crypto_core_ristretto255_scalar_mul', 'crypto_core_ristretto255_scalar_random',
          'crypto_core_ristretto255_scalar_sub', 'crypto_core_ristretto255_scalar_reduce')


def callof(fn, v, *names):
    """the one call (of the given names) that handed out v"""
    us = handed(fn, v)
    if len(us) != 1:
        return None
    u = next(iter(us))
    for c in fn.calls(*names):
        if c.uid == u:
            return c
    return None


def session_of_key(fn, v, seen=None):
    """the session whose key the pointer v is (or null)"""
    out = set()
    todo, seen = [poly(v)], set()
    while todo:
        p = todo.pop()
        a = p.single()
        if p == ZERO or a in seen:
            continue
        if not a:
            return None
        seen.add(a)
        if a[0] == 'phi':
            d = fn.f.defs[a[2]]
            todo += [fn.val(o, d.ty) for o, bn in zip(d.ops, d.extra['blocks']) if bn in fn.alive]
        elif a[0] == 'ite':
            todo += [poly(a[2]), poly(a[3])]
        elif a[0] == 'ld':
            b = fn.base(a[1])[0]
            if not b or b[0] != 'ld':
                return None
            out.add(poly(b))
        elif a[0] in ('call', 'fn') and a[1] == 'Noise_XK_session_get_key':
            c = callof(fn, p, 'Noise_XK_session_get_key')
            out.add(fn.args(c)[0])
        else:
            return None
    return out.pop() if len(out) == 1 else None


def check(R):
    R.rule('plain', 'no byte of a share is written to an output other than through the channel')
    R.rule('level', 'shares are given to the channel at the forward-secret confidentiality level only')
    R.rule('sent', 'for every peer the message carries the whole encrypted share of that peer and a tag over all of the ciphertext')
    R.rule('accepted', 'a received share enters the state only when its tag verified and the channel decrypted it, whole, at the authenticated-sender level')
    R.rule('complete', 'success of the receiving step means a share was accepted from every peer')
    R.rule('layout', 'sender and receiver agree where ciphertext and tag lie')
    P = Proto()
    R.sources = P.sources
    SH = P.size('TOPRF_Share') if 'TOPRF_Share' in P.st else 33
    sent, got = set(), set()
    for s in range(0, 11):
        S = Step(P, 'peer', s)
        fn = S.fn
        out = fn.base(S.output)[0]
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op == 'call' and ins.callee == 'Noise_XK_pack_message_with_conf_level':
                    a = fn.args(ins)
                    if a[2] != ZERO and S.fieldname(a[2])[0] in SECRET:
                        R.ok(a[0] == poly(CONF), 'level', fn.where(ins), '%s: a share is sent at confidentiality level %s' % (S.name, show(a[0])))
                if ins.op not in ('store', 'call'):
                    continue
                for w in fn.writes_of(ins):
                    if w[1] != out and not (w[1] and w[1][0] == 'phi' and fn.within(w[2], 3)):
                        continue
                    bad = False
                    if ins.op == 'store':
                        bad = any(a[0] == 'ld' and S.fieldname(a[1])[0] in SECRET for a in all_atoms(fn.val(ins.ops[0], ins.extra['ty'])))
                    elif ins.callee in ('memcpy', 'memmove'):
                        bad = S.fieldname(fn.args(ins)[1])[0] in SECRET or tainted_local(S, ins, fn.args(ins)[1])
                    else:
                        bad = ins.callee in SCALAR
                    R.ok(not bad, 'plain', fn.where(ins), '%s: a share is written to the output in the clear' % S.name)
        if fn.calls('crypto_auth') or s == 4:
            sending(R, P, S, SH, sent)
        receiving(R, P, S, SH, got)
    if not sent:
        R.broken('no share is sent')
    if not got:
        R.broken('no share is received')
    R.ok(sent == got, 'layout', 'peer steps 4 and 5', 'ciphertext and tag are sent at %s but read at %s' % (sorted(map(str, sent)), sorted(map(str, got))))
    R.floor('plain', 20)
    R.floor('level', 1)
    R.floor('sent', 1)
    R.floor('accepted', 1)


def tainted_local(S, ins, addr, seen=None):
    """addr is a local area filled from a share"""
    fn = S.fn
    seen = set() if seen is None else seen
    b = fn.base(addr)[0]
    if not b or b[0] != 'alloca' or b in seen:
        return False
    seen.add(b)
    for bb in fn.rpo:
        for i in bb.instrs:
            if i.op in ('store', 'call'):
                for w in fn.writes_of(i):
                    if w[1] != b:
                        continue
                    if i.op == 'store' and any(a[0] == 'ld' and S.fieldname(a[1])[0] in SECRET for a in all_atoms(fn.val(i.ops[0], i.extra['ty']))):
                        return True
                    if i.op == 'call' and i.callee in ('memcpy', 'memmove'):
                        src = fn.args(i)[1]
                        if S.fieldname(src)[0] in SECRET or tainted_local(S, i, src, seen):
                            return True
    return False


def payload(S, v):
    """(source, length, level, session) of the message whose ciphertext v is"""
    fn = S.fn
    wr = callof(fn, v, 'Noise_XK_session_write')
    if wr is None:
        return None
    a = fn.args(wr)
    pk = callof(fn, a[0], 'Noise_XK_pack_message_with_conf_level')
    if pk is None:
        return None
    p = fn.args(pk)
    return p[2], p[1], p[0], a[1]


def sending(R, P, S, SH, sent):
    fn = S.fn

    def hook(st, ins):
        st = S.hook(st, ins)
        if st is None or ins.op != 'call':
            return st
        a = fn.args(ins)
        if ins.callee in ('memcpy', 'memmove') and fn.within(a[0], 3):
            p = payload(S, a[1])
            if p and p[0] != ZERO:
                n = st.known(st.resolve(a[2]))
                if n is None and a[2].const() is not None:
                    n = a[2].const()
                st = State(st.facts | {(('ct', a[0], poly(n) if n is not None else a[2]) + p, True)}, st.must, st.may)
        elif ins.callee == 'crypto_auth':
            for f, _ in st.facts:
                if f[0] == 'ct' and f[1] == a[1] and f[2] == a[2] and session_of_key(fn, a[3]) == f[6]:
                    st = State(st.facts | {(('tag', a[0]) + f[1:6], True)}, st.must, st.may)
        return st
    F = flow.forall_facts(fn, hook, S.track, S.init)
    n = S.num('n')
    for r, st in F.success_states():
        ok = None
        for f, _ in st.facts:
            if f[0] == 'all' and f[3][0][0] == 'tag':
                k, B, (g, _) = f[1], f[2], f[3]
                tag, ct, ln, src, sl, level = g[1:7]
                base = S.output
                m = None
                for q, cf in (ct - base).t:
                    if q == (k,):
                        m = cf
                if m is None or B != n:
                    continue
                x = (ct - base - poly(k) * m).const()
                y = (tag - ct).const()
                if src == S.ptr('shares') + poly(k) * SH and sl == poly(SH) and level == poly(CONF) and x is not None and y is not None and ln == poly(SH + 16):
                    ok = (m, x, y, ln.const())
        R.ok(ok is not None, 'sent', fn.where(r), '%s: succeeds without having put, for every peer, its whole encrypted share and a tag over it into the message' % S.name)
        if ok:
            sent.add(ok)


def receiving(R, P, S, SH, got):
    fn = S.fn
    n = S.num('n')
    writes = []
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op in ('store', 'call'):
                for w in fn.writes_of(ins):
                    if w[1] is not None and w[1][0] == 'ld' and S.fieldname(w[2])[0] == 'xshares':
                        writes.append((ins, w))
    if not writes:
        return
    good = {}

    def judge(st, ins, w):
        """why this write of a share is not authenticated, or None and where its parts lie"""
        if ins.op != 'call' or ins.callee not in ('memcpy', 'memmove'):
            if ins.op == 'call' and ins.callee == 'memset' and fn.args(ins)[1] == ZERO:
                return None, None
            return 'is not the plaintext of a channel message', None
        a = fn.args(ins)
        U = callof(fn, a[1], 'Noise_XK_unpack_message_with_auth_level', 'Noise_XK_unpack_message')
        if U is None:
            return 'is not the plaintext of a channel message', None
        ua = fn.args(U)
        if U.callee == 'Noise_XK_unpack_message_with_auth_level':
            lv = ua[2].const()
            if lv is None or lv < AUTH:
                return 'is unpacked at authentication level %s' % show(ua[2]), None
            enc = ua[3]
        else:
            enc = ua[2]
        if outcome(fn, st, U) is not True:
            return 'is used although unpacking it may have failed', None
        rd = callof(fn, enc, 'Noise_XK_session_read')
        if rd is None or outcome(fn, st, rd) is not True:
            return 'is used although decrypting it may have failed', None
        ses, ln, src = fn.args(rd)[1:4]
        size = a[2].const()
        if size is None:
            size = st.known(st.resolve(a[2]))
        if size != SH:
            return 'has %s bytes' % show(a[2]), None
        ptr, off = fn.base(w[2])
        ks = [x for x in off.atoms() if x[0] == 'k']
        if len(ks) != 1 or off != poly(ks[0]) * SH:
            return 'is stored at offset %s' % show(off), None
        k = ks[0]
        if ses != poly(('ld', S.ptr('noise_ins') + poly(k) * 8, 8, None, True)):
            return 'comes from the channel of another peer', None
        m = (src - S.input).coef(k)
        x = (src - S.input - poly(k) * m).const()
        if not m or x is None:
            return 'comes from the message of another peer', None
        why = 'is accepted without its tag having been verified'
        for l, pol in st.facts:
            if l[0] == 'eq' and pol:
                q = l[1].single()
                if q and q[0] == 'fn' and q[1] == 'crypto_auth_verify':
                    t, c, cl, key = [poly(z) for z in q[2][:4]]
                    if c == src and cl == ln and session_of_key(fn, key) == ses:
                        return None, (m, x, (t - c).const(), ln.const())
                    if c == src:
                        why = 'is accepted with a tag over other bytes or under another key'
        return why, None

    def hook(st, ins):
        st = S.hook(st, ins)
        if st is None:
            return None
        for i, w in writes:
            if i is ins:
                why, lay = judge(st, ins, w)
                if why is None and lay:
                    st = State(st.facts | {(('got', w[2]), True)}, st.must, st.may)
        return st
    # the channel hands out no plaintext exactly when it is empty
    outs = []
    for U in fn.calls('Noise_XK_unpack_message_with_auth_level', 'Noise_XK_unpack_message'):
        a = fn.args(U)
        outs.append((poly(('ld', a[1], 8, frozenset({U.uid}), True)), poly(('ld', a[0], 4, frozenset({U.uid}), False))))

    def edge(st, b, s):
        for ptr, ln in outs:
            if st.holds(Eq(ptr)) is True and st.holds(Eq(ln)) is False:
                return None
        return st
    F = flow.forall_facts(fn, hook, S.track, S.init, edgehook=edge)
    for ins, w in writes:
        for st in F.states_before(ins):
            why, lay = judge(st, ins, w)
            R.ok(why is None, 'accepted', fn.where(ins), '%s: a received share %s' % (S.name, why))
            if lay:
                got.add(lay)
    for r, st in F.success_states():
        ok = any(f[0] == 'all' and f[3][0][0] == 'got' and f[2] == n and f[3][0][1] == S.ptr('xshares') + poly(f[1]) * SH for f, _ in st.facts)
        R.ok(ok, 'complete', fn.where(r), '%s: succeeds without having accepted a share from every peer' % S.name)
