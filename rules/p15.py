"""P15 secure-channel failures stop the peer; sessions have one owner"""
TECHNIQUE = 'ownership typestate and pending-result typestate for every channel operation, as must/may dataflow over inlined LLVM IR'
NOTE = 'every path of every peer step and of the clean-up; every session, message and buffer the channel layer hands out'
from proto import *
from common import *
from p09 import uses

# operation -> (what it hands out: 'result' or number of the out argument, how that is given back)
OUT = {'Noise_XK_pack_message_with_conf_level': ('result', 'Noise_XK_encap_message_p_free'),
       'Noise_XK_session_read': (0, 'Noise_XK_encap_message_p_free'),
       'Noise_XK_session_write': (3, 'free'),
       'Noise_XK_unpack_message_with_auth_level': (1, 'free'), 'Noise_XK_unpack_message': (1, 'free'),
       'Noise_XK_peer_get_info': (0, 'free'),
       'Noise_XK_session_create_initiator': ('result', 'Noise_XK_session_free'),
       'Noise_XK_session_create_responder': ('result', 'Noise_XK_session_free'),
       'Noise_XK_device_create': ('result', 'Noise_XK_device_free')}
RELEASE = {'Noise_XK_encap_message_p_free', 'free', 'Noise_XK_session_free', 'Noise_XK_device_free'}
RCODE = {'Noise_XK_session_read', 'Noise_XK_session_write'}
POINTER = {'Noise_XK_session_create_initiator', 'Noise_XK_session_create_responder', 'Noise_XK_device_create', 'Noise_XK_device_add_peer'}
TRUTH = {'Noise_XK_unpack_message_with_auth_level', 'Noise_XK_unpack_message'}
SLOTS = ('noise_ins', 'noise_outs', 'dev')


def handed(fn, v):
    """the calls (uids) that handed out value v"""
    a = poly(v).single()
    if not a:
        return frozenset()
    if a[0] == 'call':
        return frozenset({a[2]})
    if a[0] == 'fn' and len(a) > 3:
        return frozenset({a[3]})
    if a[0] == 'ld' and a[3]:
        return frozenset(u for u in a[3] if u != 'entry')
    return frozenset()


def outcome(fn, st, c):
    """True: the call succeeded, False: it failed, None: not established"""
    v = fn.val(('loc', c.name), c.ty)
    if c.callee in POINTER or c.callee in TRUTH:
        h = st.holds(Eq(v))
        return None if h is None else not h
    x = v.single()
    seen = set()
    for l, pol in st.facts:
        if l[0] != 'eq':
            continue
        a = l[1].single()
        if not a or x not in all_atoms(a):
            continue
        if a[0] in ('fn', 'call') and a[1] in ('Noise_XK_rcode_is_success', 'Noise_XK_rcode_is_error'):
            if a[1] == 'Noise_XK_rcode_is_success' or not pol:      # neither: the session is stuck
                seen.add(a[1] == 'Noise_XK_rcode_is_success' and not pol)
        if a[0] == 'trunc' and a[1] == 8 and poly(a[2]) == v:
            seen.add(pol)
    return None if not seen else False not in seen


def analyse(R, fn, name, slotof, hook0=None, init=State(), track=None, final=True):
    calls = {i.uid: i for b in fn.rpo for i in b.instrs if i.op == 'call' and (i.callee in OUT or i.callee in POINTER)}
    stores = {}
    for b in fn.rpo:
        for i in b.instrs:
            if i.op == 'store' and i.extra['ty'] == ('ptr',):
                v = fn.val(i.ops[0], ('ptr',))
                if v != ZERO and slotof(fn.val(i.ops[1])):
                    stores.setdefault(v, set()).add(fn.val(i.ops[1]))
    fallible = {u for u, c in calls.items() if c.callee in RCODE | POINTER | TRUTH}
    problems = {}

    def say(kind, ins, text):
        problems.setdefault((kind, fn.where(ins), text), ins)

    def slots(v):
        a = v.single()
        if a and a[0] == 'ld' and slotof(a[1]):
            return {a[1]}
        return stores.get(v, set())

    def given(c):
        """the value a call hands out, as seen by what follows"""
        o = OUT.get(c.callee)
        if o is None:
            return None
        if o[0] == 'result':
            return fn.val(('loc', c.name), c.ty)
        return poly(('ld', fn.args(c)[o[0]], 8, frozenset({c.uid}), True))

    def hook(st, ins):
        if hook0:
            st = hook0(st, ins)
            if st is None:
                return None
        if ins.op == 'call' and ins.callee:
            vals = [v for v, t in zip(fn.args(ins), ins.extra['argty']) if t == ('ptr',)]
            if ins.callee not in RELEASE:
                for v in vals:
                    b = fn.base(v)[0]
                    for u in handed(fn, poly(b)) if b else ():
                        if ('freed', u) in st.may:
                            say('used', ins, '%s: %s uses what was already given back' % (name, ins.callee))
                    for s in slots(v):
                        if ('sfreed', s) in st.may:
                            say('used', ins, '%s: %s uses a session that was freed' % (name, ins.callee))
                if ins.callee in RCODE:
                    s = fn.args(ins)[1]
                    if slots(s) and st.holds(Eq(s)) is not False:
                        say('null', ins, '%s: %s on a session that may not exist' % (name, ins.callee))
            else:
                v = vals[0]
                us = handed(fn, v)
                if us & set(calls):
                    for u in us:
                        if ('freed', u) in st.may:
                            say('twice', ins, '%s: %s gives back a second time' % (name, ins.callee))
                        if u in calls and u not in () and OUT.get(calls[u].callee, (0, ins.callee))[1] != ins.callee:
                            say('wrong', ins, '%s: %s on what %s handed out' % (name, ins.callee, calls[u].callee))
                    may = frozenset(t for t in st.may if not (t[0] == 'own' and t[1] in us))
                    st = State(st.facts, st.must, may | {('freed', u) for u in us})
                ss = slots(v)
                if ins.callee in ('Noise_XK_session_free', 'Noise_XK_device_free'):
                    for s in ss:
                        if ('sfreed', s) in st.may:
                            say('twice', ins, '%s: a session is freed twice' % name)
                    if st.holds(Eq(v)) is not False and ins.callee == 'Noise_XK_session_free':
                        say('null', ins, '%s: frees a session that may not exist' % name)
                    st = State(st.facts, st.must, st.may | {('sfreed', s) for s in ss if ('gone', s) not in st.must})
            if ins.uid in calls:
                may = set(t for t in st.may if t not in (('freed', ins.uid),))
                if ('own', ins.uid) in may:
                    say('leak', ins, '%s: what %s handed out before is not given back' % (name, ins.callee))
                if ins.callee in OUT:
                    may.add(('own', ins.uid))
                if ins.uid in fallible:
                    may = {t for t in may if not (t[0] in ('failed', 'un') and t[1] == ins.uid)} | {('un', ins.uid)}
                st = State(st.facts, st.must, frozenset(may))
        elif ins.op == 'store':
            a = fn.val(ins.ops[1])
            if slotof(a):
                v = fn.val(ins.ops[0], ins.extra['ty'])
                us = handed(fn, v)
                # ownership moves to the state; a freed session is no longer reachable from it
                must = st.must | {('gone', a)} if v == ZERO else st.must - {('gone', a)}
                st = State(st.facts, must, frozenset(t for t in st.may if t != ('sfreed', a) and not (t[0] == 'own' and t[1] in us)))
        elif ins.op == 'load':
            b = fn.base(fn.val(ins.ops[0]))[0]
            for u in handed(fn, poly(b)) if b else ():
                if ('freed', u) in st.may:
                    say('used', ins, '%s: reads what was already given back' % name)
        return st

    def settle(st):
        may = set(st.may)
        for t in st.may:
            if t[0] == 'un':
                o = outcome(fn, st, calls[t[1]])
                if o is not None:
                    may.discard(t)
                    if not o:
                        may.add(('failed', t[1]))
                        may.discard(('own', t[1]))
        for t in list(may):
            if t[0] == 'own':
                c = calls[t[1]]
                if st.holds(Eq(given(c))) is True or (c.uid in fallible and outcome(fn, st, c) is False):
                    may.discard(t)
        return State(st.facts, st.must, frozenset(may)) if may != st.may else st

    def edge(st, b, s):
        st = settle(st)
        if (b.name, s.name) in fn.backedges:
            old = [t for t in st.may if t[0] == 'sfreed' and fn.variant_in(t[1], s.name)]
            gone = [t for t in st.must if t[0] == 'gone' and fn.variant_in(t[1], s.name)]
            if gone:
                st = State(st.facts, st.must - set(gone), st.may)
            if old:
                st = State(st.facts, st.must, frozenset(t for t in st.may if t not in old) | {('sfreed', ('earlier',))})
        return st

    F = Facts(fn, hook, lambda st: (track(st) if track else None, frozenset(t for t in st.may if t[0] == 'failed')), init, edge)
    problems.clear()
    for b in fn.rpo:
        for st in F.at.get(b.name, {}).values():
            F.transfer(b, st)
    for r, st, v in F.returns():
        st = settle(st)
        for t in st.may:
            if t[0] == 'own':
                say('leak', calls[t[1]], '%s: returns without giving back what %s handed out' % (name, calls[t[1]].callee))
            elif t[0] == 'sfreed' and final:
                say('stale', r, '%s: a freed session stays where clean-up frees it again' % name)
    succ = {}
    for r, st in F.success_states():
        for t in settle(st).may:
            if t[0] in ('un', 'failed'):
                succ.setdefault(t[1], set()).add(t[0])
    used = uses(fn)
    for u, c in calls.items():
        w = fn.where(c)
        if u in fallible and final:
            s = succ.get(u, ())
            R.ok(not s and c.name in used, 'fail', w, '%s: can report success %s %s' % (
                name, 'after a failed' if 'failed' in s else 'without having established the success of', c.callee))
        R.saw('calls', c.callee)
    rule = {'leak': 'released', 'used': 'live', 'twice': 'once', 'stale': 'once', 'null': 'live', 'wrong': 'released'}
    for (kind, w, text), ins in problems.items():
        R.bad(rule[kind], w, text)
    n = 0
    for b in fn.rpo:
        for i in b.instrs:
            if i.op == 'call' and i.callee:
                if i.callee.startswith('Noise_XK_session') and 'create' not in i.callee and i.callee not in RELEASE:
                    R.ok(True, 'live', fn.where(i), '')
                if i.callee in OUT:
                    R.ok(True, 'released', fn.where(i), '')
                elif i.callee in RELEASE:
                    R.ok(True, 'once', fn.where(i), '')
    return calls


def check(R):
    R.rule('fail', 'no step succeeds after a channel operation failed or without having established that it did not')
    R.rule('once', 'nothing is freed twice, and no freed session stays where clean-up would free it again')
    R.rule('live', 'nothing is used after it was freed, and no session is used that may not exist')
    R.rule('released', 'whatever a channel operation hands out is given back, by the matching operation, or kept in the state on every way out')
    P = Proto()
    R.sources = P.sources
    seen = set()
    for s in range(0, 11):
        S = Step(P, 'peer', s)
        seen |= {c.callee for c in analyse(R, S.fn, S.name, lambda a, S=S: S.fieldname(a)[0] in SLOTS, S.hook, S.init, S.track).values()}
    for c in ('Noise_XK_session_create_initiator', 'Noise_XK_session_create_responder', 'Noise_XK_session_read', 'Noise_XK_session_write'):
        if c not in seen:
            R.broken('no call of %s found' % c)
    fn = P.func('tpdkg_peer_free', ['ctx'])
    offs = {P.peer[x][0]: x for x in SLOTS}

    def slotof(a):
        b, off = fn.base(a)
        if b == fn.arg(0).single():
            return off.const() == P.peer['dev'][0]
        return bool(b and b[0] == 'ld' and (poly(b[1]) - fn.arg(0)).const() in offs)
    analyse(R, fn, 'clean-up', slotof, final=False)
    freed = {}
    for c in fn.calls('Noise_XK_session_free'):
        a = fn.args(c)[0].single()
        if a and a[0] == 'ld' and fn.base(a[1])[0] and fn.base(a[1])[0][0] == 'ld':
            x = offs.get((poly(fn.base(a[1])[0][1]) - fn.arg(0)).const())
            freed.setdefault(x, []).append((c, a))
    for x in ('noise_ins', 'noise_outs'):
        l = freed.get(x, [])
        w = fn.where(fn.rets()[0])
        R.ok(len(l) == 1, 'once', w, 'clean-up frees the sessions of %s in %d places' % (x, len(l)))
    R.floor('fail', 12)
    R.floor('once', 12)
    R.floor('live', 8)
    R.floor('released', 14)
