"""P05 rejected messages are attributed and abort the run"""
from msgs import *
from common import *
from emit import sigs
from flow import Facts
from proto import cell, cellhook

TECHNIQUE = 'typestate over the violator list (recorded / accepted per message loop iteration) on inlined LLVM IR with must-facts'
NOTE = 'all paths of every step of the trusted party, for every number of peers; the list capacity is the value the caller gave'

# the protocol step number reported for each internal step
STEPNO = {1: 4, 2: 6, 3: 8, 4: 12, 5: 14, 6: 16, 7: 18, 8: 20, 9: 22}


def check(R):
    P = load(R)
    R.rule('attributed', 'every iteration of the loop over received messages ends with the message accepted in all aspects or '
                         'with a violator record naming its sender')
    R.rule('record', 'each record is written at the old end of the list, inside its capacity, with the failing step, a '
                     'non-zero reason and the sender of the message, and the length grows by exactly one')
    R.rule('all examined', 'the loop over the messages is left early only when the violator list is full')
    R.rule('no success', 'no path on which a violator was recorded returns success')
    R.rule('no broadcast', 'no signing call is reachable after a record in the same step (the final verdict excepted)')
    R.rule('grows only', 'nothing else writes the length of the violator list, except its initialisation to 0')
    for s in range(0, 12):
        step = Step(P, 'tp', s)
        step.cands = candidates(P, step.fn, step.argi)
        one(R, P, step)
    init(R, P)
    for r, n in (('attributed', 9), ('record', 15), ('all examined', 9), ('no success', 8), ('no broadcast', 4), ('grows only', 2)):
        R.floor(r, n)


def listfull(st, step, fn):
    """cheater_len >= cheater_max known"""
    mx = None
    for f, pol in st.facts:
        if f[0] == 'ult' and not pol:
            a, b = f[1].single(), f[2].single()
            if a and b and a[0] == 'ld' and b[0] == 'ld' and a[1] == step.field('cheater_len') and b[1] == step.field('cheater_max'):
                return True
        if f[0] in ('ge', 'eq') and pol:
            names = {x[1]: f[1].coef(x) for x in f[1].aset() if x[0] == 'ld'}
            if names.get(step.field('cheater_len')) and names.get(step.field('cheater_max')):
                if f[0] == 'eq' or (names[step.field('cheater_len')] == 1 and f[1].c0() <= 0):
                    return True
    return False


def one(R, P, step):
    fn = step.fn
    C = P.cheater
    csz = P.size('TP_DKG_Cheater')
    cl = step.field('cheater_len')
    T = P.mod.types

    def recstore(ins):
        """(field, record offset, value) of a store into the violator list"""
        a = fn.val(ins.ops[1])
        b, off = fn.base(a)
        if b is None or poly(b) != step.ptr('cheaters'):
            return None
        for nm, (o, sz) in C.items():
            q = divide(off - o, poly(csz))
            if q is not None and T.size(ins.extra['ty']) == sz:
                return nm, q, fn.val(ins.ops[0], ins.extra['ty'])
        sz = T.size(ins.extra['ty'])
        for o in range(csz - sz + 1):
            # padding between the fields
            if all(o + sz <= fo or fo + fs <= o for fo, fs in C.values()):
                q = divide(off - o, poly(csz))
                if q is not None:
                    return 'pad', q, None
        return '?', off, None

    def hook(st, ins):
        st = step.hook(st, ins)
        if st is None:
            return None
        if ins.op == 'store':
            r = recstore(ins)
            if r and r[0] == 'peer':
                st = State(st.facts, st.must | {('recd', r[2])}, st.may)
        return st

    def track(st):
        return (step.track(st), frozenset(t for t in st.must if t[0] == 'recd'), listfull(st, step, fn))
    F = Facts(fn, hook, track, step.init)
    # ---- records
    lens = [i for b in fn.rpo for i in b.instrs if i.op == 'store' and fn.val(i.ops[1]) == cl]
    recs = [(i, recstore(i)) for b in fn.rpo for i in b.instrs if i.op == 'store' and recstore(i)]
    loops = message_loops(step)
    senders = sender_values(step, loops)
    sizes = {nm: [r for r in recs if r[1][0] == nm] for nm in ('step', 'error', 'peer')}
    for i in lens:
        where = '%s, %s' % (step.name, fn.where(i))
        old = fn.load_at(i, cl, step.F['cheater_len'][1])
        new = fn.val(i.ops[0], i.extra['ty'])
        probs = []
        if new - old != ONE and same(State(), new, old + 1) is False:
            probs.append('the length of the list does not grow by one')
        mx = fn.load_at(i, step.field('cheater_max'), step.F['cheater_max'][1])
        sts = F.states_before(i)
        if not sts:
            continue
        if not all(prove(relin(st.facts), mx - old - 1) or prove(st.facts, mx - old - 1) for st in sts):
            probs.append('the list can be full')
        for nm in ('step', 'error', 'peer'):
            mine = [r for r in sizes[nm] if r[1][1] == old and near(fn, i, r[0])]
            if not mine:
                probs.append('the record at the old end of the list gets no %s' % nm)
            for ins, (_, q, v) in mine:
                for st in F.states_before(ins):
                    if nm == 'step' and STEPNO.get(step.s) != (v.const() if v.const() is not None else st.known(v)):
                        probs.append('the failing step recorded is %s' % show(v))
                    if nm == 'error' and not nonzero(st, v):
                        probs.append('the reason recorded may be 0')
                    if nm == 'peer' and not culprit(step, fn, st, v, ins, loops, senders):
                        probs.append('the peer recorded (%s) is not the sender of the rejected message' % show(v))
        probs = sorted(set(probs))
        R.ok(not probs, 'record', where, '; '.join(probs))
    for ins, (nm, q, v) in recs:
        if nm != '?' and any(q == fn.load_at(i, cl, 8) and near(fn, i, ins) for i in lens):
            continue
        sts = F.states_before(ins)
        mxs = [fn.load_at(ins, step.field('cheater_max'), step.F['cheater_max'][1])]
        ok = nm != '?' and all(any(prove(relin(st.facts), m - q - 1) for m in mxs) for st in sts)
        R.ok(ok, 'record', '%s, %s' % (step.name, fn.where(ins)), 'writes into the violator list at a place not known to be inside it')
    # ---- each message accepted or attributed
    for h, Ms in loops.items():
        hb = fn.f.blocks[h]
        k = fn.ivinfo[h]['k']
        inner = [M for M in Ms if innermost(step, M) == h]
        for (bn, hn) in fn.backedges:
            if hn != h or not inner:
                continue
            b = fn.f.blocks[bn]
            bad = None
            seen = 0
            for _, st in F.at.get(bn, {}).items():
                o = F.transfer(b, st)
                o = assume(o, fn.edge_cond(b, hb)) if o is not None else None
                if o is None:
                    continue
                seen += 1
                if any(t[0] == 'recd' for t in o.must):
                    continue
                miss = None
                for M in inner:
                    kn = Known(P, step, o, M)
                    m, tot = missing(step, o, kn)
                    if miss is None or len(m) < len(miss):
                        miss = m
                if miss and step.s == 7 and unexpected(step, o):
                    continue
                if not miss and step.s == 8 and not any(transcript(fn, o, M + P.HDR) for M in inner):
                    miss = {'content'}
                if miss:
                    bad = miss
            if seen:
                R.ok(not bad, 'attributed', '%s, loop at %s' % (step.name, fn.where(b.instrs[-1])),
                     'a message can be skipped without record though unchecked: ' + ', '.join(('the transcript hash' if m == 'content' else WHAT[m]) for m in ASPECTS + ('content',) if m in (bad or ())))
        # ---- early exits
        for bn in sorted(fn.loops[h]):
            b = fn.f.blocks[bn]
            if bn not in fn.alive:
                continue
            for s in fn.succ(b):
                if s.name in fn.loops[h]:
                    continue
                bad = None
                seen = 0
                for _, st in F.at.get(bn, {}).items():
                    o = F.transfer(b, st)
                    if o is None:
                        continue
                    o = assume(o, fn.edge_cond(b, s))
                    if o is None:
                        continue
                    seen += 1
                    n = step.num('n')
                    if listfull(o, step, fn) or done(o, k, n, bn == h):
                        continue
                    bad = o
                if seen:
                    R.ok(bad is None, 'all examined', '%s, %s' % (step.name, fn.where(b.instrs[-1])),
                         'the remaining messages of the step are not examined')
    # ---- success / signing
    suc = F.success_states()
    for r, st in suc:
        R.ok('rec' not in st.may, 'no success', '%s, %s' % (step.name, fn.where(r)), 'the step can succeed after recording a violator')
    if step.s != 8:
        for S in sigs(step):
            sts = F.states_before(S.ins)
            if sts:
                R.ok(all('rec' not in st.may for st in sts), 'no broadcast', S.where, 'signs a message after a violator was recorded')
    # ---- other writes
    for b in fn.rpo:
        for i in b.instrs:
            for (_, base, addr, size, kind) in fn.writes_of(i):
                if base is None or poly(base) != step.ctx:
                    continue
                if not fn.disjoint(cl, 8, addr, size) and i not in lens:
                    R.bad('grows only', '%s, %s' % (step.name, fn.where(i)), 'overwrites the length of the violator list')
    R.saw('grows only', step.name)


def transcript(fn, st, D):
    """the 32 bytes at D were compared equal"""
    for f, pol in st.facts:
        if pol and f[0] == 'eq':
            a = f[1].single() or (-f[1]).single()
            if a and a[0] == 'fn' and (a[1] in flow.MEMCMP or a[1] == 'crypto_verify_32') and D in a[2][:2]:
                return True
    return False


def near(fn, i, j):
    """the record belongs to this growth of the list: one reaches the other without another growth"""
    return i.block is j.block or fn.idominates(i, j) or fn.idominates(j, i)


def nonzero(st, v):
    if v.const() is not None:
        return v.const() != 0
    return st.holds(Eq(v)) is False or prove(st.facts, v - 1) or prove(relin(st.facts), v - 1)


def done(st, k, n, header):
    q = poly(k) - n + (0 if header else 1)
    return prove(st.facts, q) or prove(relin(st.facts), q)


def message_loops(step):
    """{loop header: messages validated inside}"""
    fn = step.fn
    out = {}
    for M in step.cands:
        hs = {a[3] for a in M.aset() if a[0] == 'k'}
        vs = [i for i in fn.calls('crypto_sign_verify_detached') if fn.args(i)[0] == M]
        if not vs:
            continue
        for i in vs:
            for h in fn.loopsof.get(i.block.name, ()):
                if M not in out.setdefault(h, []):
                    out[h].append(M)
    return out


def innermost(step, M):
    fn = step.fn
    best = None
    for i in fn.calls('crypto_sign_verify_detached'):
        if fn.args(i)[0] == M:
            hs = fn.loopsof.get(i.block.name, ())
            for h in hs:
                if best is None or len(fn.loops[h]) < len(fn.loops[best]):
                    best = h
    return best


def sender_values(step, loops):
    """1-based sender each message is checked against"""
    out = {}
    fn = step.fn
    for h, Ms in loops.items():
        for M in Ms:
            for i in fn.calls('crypto_sign_verify_detached'):
                if fn.args(i)[0] == M:
                    out.setdefault(M, set()).update(step.senders(M))
                    K = fn.args(i)[3]
                    b, off = fn.base(K)
                    if b is not None and poly(b) == step.ptr('peer_sig_pks'):
                        q = divide(off, poly(32))
                        if q is not None:
                            out.setdefault(M, set()).add(q + 1)
    return out


def culprit(step, fn, st, v, ins, loops, senders):
    hs = fn.loopsof.get(ins.block.name, ())
    vals = set()
    for h in hs:
        for M in loops.get(h, ()):
            vals |= senders.get(M, set())
    if step.s == 7:
        return True                    # whom a dispute blames is decided by P17
    if vals:
        return any(v == x or (v - x).const() == 0 or same(st, v, x) for x in vals)
    # the report of too many complaints has no single culprit
    return v.const() == 254 and toomany(step, st)


def toomany(step, st):
    """complaints_len >= t*t"""
    for f, pol in st.facts:
        ats = all_atoms(f[0] if isinstance(f[0], tuple) else f)
        s = {a[1] for a in all_atoms(f) if a[0] == 'ld'}
        if step.field('complaints_len') in s and step.field('t') in s:
            return True
    return False


def unexpected(step, st):
    """no complaint against this peer, so no message of it"""
    for f, pol in st.facts:
        if pol and f[0] == 'eq':
            a = f[1].single() or (-f[1]).single()
            if a and a[0] == 'ld':
                b = step.fn.base(a[1])[0]
                if b is not None and b[0] == 'alloca':
                    return True
    return False


def init(R, P):
    fn = P.start('tp')
    cl = fn.arg(0) + P.tp['cheater_len'][0]
    F = Facts(fn, cellhook(fn, {'len': (cl, P.tp['cheater_len'][1])}))
    for r, st in F.success_states():
        ok = cell(st, 'len') == 0
        R.ok(ok, 'grows only', 'tp start, ' + fn.where(r), 'the violator list does not start empty')
    fn = P.func('tpdkg_tp_set_bufs')
    off, size = P.tp['cheater_max']
    for r, st, _ in Facts(fn, watch(fn, {'max': (fn.arg(0) + off, size)})).returns():
        R.ok(value(st, 'max') == fn.arg(5), 'record', fn.where(r), 'the capacity kept for the violator list is not the one the caller gave')
    for nm in sorted(P.mod.fns):
        f = P.mod.fns[nm]
        if not f.blocks or nm in ('tpdkg_tp_next', 'tpdkg_start_tp') or not nm.startswith('tpdkg_tp_'):
            continue
        g = P.func(nm)
        c = g.arg(0) + P.tp['cheater_len'][0]
        for w in g.writes():
            ins, base, addr, size = w[0], w[1], w[2], w[3]
            if base is not None and poly(base) == g.arg(0) and not g.disjoint(c, 8, addr, size):
                R.bad('grows only', '%s, %s' % (nm, g.where(ins)), 'writes the length of the violator list')
        R.saw('grows only', nm)
