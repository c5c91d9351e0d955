"""P03 freshness of timestamps"""
TECHNIQUE = "must-fact dataflow with linear reasoning at every update of a sender's reference time"
NOTE = 'all paths of every protocol step; the clock is an unknown value'
from msgs import *
from common import *


def window(step, W, M):
    """[(state, reference known to be unset?, missing bounds)]"""
    fn = step.fn
    slot = fn.val(W.ops[1])
    T = fn.val(W.ops[0], W.extra['ty'])
    R = fn.load_at(W, slot, 8)
    eps = fn.load_at(W, step.field('ts_epsilon'), step.F['ts_epsilon'][1])
    F = Facts(fn, step.hook, lambda st: (step.track(st), st.holds(Eq(R))), step.init)
    out = []
    for st in F.states_before(W):
        Q = set()
        nows = set()
        for f, pol in st.facts:
            if f[0] in ('ult',):
                e = f[2] - f[1] - 1 if pol else f[1] - f[2]
                Q.add((('ge', e), True))
            elif f[0] in ('ge', 'eq') and pol:
                Q.add((f, True))
        for f, _ in Q:
            nows |= {a for a in f[1].aset() if is_time(a)}
        unset = st.holds(Eq(R))
        late = early = False
        if unset is not True:
            early = prove(Q, T - R)
            late = prove(Q, R + eps - T)
        else:
            for a in nows:
                early = early or prove(Q, T - poly(a) + eps)
                late = late or prove(Q, poly(a) + eps - T)
        out.append((st, unset, [x for x, y in (('too old', early), ('too new', late)) if not y]))
    return out


def check(R):
    P = load(R)
    R.rule('window', 'at every replacement of a timestamp reference by a received timestamp the branches taken have bounded it: '
                     'reference unset: now-eps <= ts <= now+eps, otherwise reference <= ts <= reference+eps')
    R.rule('use', 'received bytes are consumed only after the timestamp of their message went through the reference of the sender')
    R.rule('complete', 'a step returns 0 only if all messages of its input went through the reference of their sender')
    R.rule('init', 'the trusted party starts every reference at its clock, a peer leaves it unset')
    steps = receiving(P)
    for step in steps:
        fn = step.fn
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op != 'store' or P.mod.types.size(ins.extra['ty']) != 8:
                    continue
                v = fn.val(ins.ops[0], ins.extra['ty'])
                if not inputloads(step, v):
                    continue
                nm = step.fieldname(fn.val(ins.ops[1]))[0]
                if nm not in ('last_ts', 'tp_last_ts'):
                    continue
                where = '%s, %s' % (step.name, fn.where(ins))
                for st, unset, miss in window(step, ins, None):
                    if step.start:
                        R.ok(unset is True, 'init', where, 'the reference for the trusted party may be set before its first message')
                    R.ok(not miss, 'window', where, 'a timestamp that is %s replaces the %s reference'
                         % (' or '.join(miss), 'unset' if unset is True else 'previous'))
    R.floor('window', 15)
    report_uses(R, steps, ('freshness',), 'use', 25)
    report_complete(R, steps, 'complete', ('freshness',), 17)
    for name, role, good, text in (('tpdkg_tp_set_bufs', 'tp', is_time, 'the clock'),
                                   ('tpdkg_peer_set_bufs', 'peer', lambda v: v == ZERO, '0')):
        fn = P.func(name)
        i = param(fn, 'last_ts')
        F = P.of(role)
        for r, st, _ in setfacts(fn).returns():
            n = poly(('ld', fn.arg(0) + F['n'][0], 1, None, False))
            # the array the state refers to afterwards
            arr = fn.load_at(r, fn.arg(0) + F['last_ts'][0], 8, True)
            vs = all_elements(st, arr, 8, n)
            if not vs and role == 'peer':
                for f, pol in st.facts:
                    if f[0] == 'blk' and f[1] == arr and f[2] == n * 8:
                        vs = [fn.load_at(r, arr, 8)]
            R.ok(bool(vs) and all(good(v) for v in vs[-1:]), 'init', fn.where(r),
                 'the timestamp references of all n peers are not set to %s' % text)
        # nothing else writes references
    for role in ('tp', 'peer'):
        start = Step(P, role, 'start')
        fn = start.fn
        off, size = start.F['ts_epsilon']
        for r, st in Facts(fn, watch(fn, {'eps': (start.ctx + off, size)}, start.hook), start.track, start.init).success_states():
            R.ok(value(st, 'eps') == fn.arg(1), 'init', '%s, %s' % (start.name, fn.where(r)), 'the tolerance kept is not the configured one')
    others(R, P, steps)


def others(R, P, steps):
    """references are only ever replaced by received timestamps"""
    for step in steps:
        fn = step.fn
        for (ins, base, addr, size, kind) in fn.writes():
            nm = step.fieldname(addr)[0]
            if nm not in ('last_ts', 'tp_last_ts') or step.start:
                continue
            if nm == 'last_ts' and base is not None and poly(base) == step.ctx:
                R.ok(False, 'window', fn.where(ins), 'the table of references is exchanged during the run')
                continue
            v = fn.val(ins.ops[0], ins.extra['ty']) if ins.op == 'store' else None
            R.ok(v is not None and bool(inputloads(step, v)), 'window', '%s, %s' % (step.name, fn.where(ins)),
                 'a timestamp reference is overwritten with something that is not a received timestamp')
