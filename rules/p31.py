"""P31 channel sessions belong to exactly the registered peer whose key was proven"""
TECHNIQUE = 'term domain with comparison outcomes carried along list-walking loops, over inlined LLVM IR of the channel library, specialised by role and handshake step'
NOTE = 'all lists of registered peers, keys and identifiers; both roles, all steps; primitives of libsodium are taken as given'
from common import *
import build, ir, flow
from flow import Fn
from terms import Terms, normal, show_value, EFFECTS, COMPARE
from p26 import Layout, ROLES, returns

KEEP = ('Noise_XK_hmac', 'Noise_XK_lbytes_eq')
FX = dict(flow.EFFECTS, **dict(EFFECTS, Noise_XK_lbytes_eq=[]))
BYID, BYKEY = 'Noise_XK_device_lookup_peer_by_id', 'Noise_XK_device_lookup_peer_by_static'


def ld(a, n=8, ptr=True):
    return poly(('ld', poly(a), n, None, ptr))


def bytes_at(p, n=32):
    return ((('in', poly(p).single()), 0, n),)


class Ctx:
    pass


def check(R):
    R.rule('device', 'a device has the given private key, the public key belonging to it, the given prologue and no peers')
    R.rule('register', 'registering a peer records exactly the given key under a fresh identifier at the head of the list and leaves the rest of the device alone')
    R.rule('unique', 'a key that is registered already, or an exhausted range of identifiers, is refused')
    R.rule('session', 'a session is opened with the registered peer of the given identifier and its key; nothing but the last handshake message changes the peer')
    R.rule('admit', 'a responder completes a handshake only with a registered peer whose key equals, in all bytes, the key the handshake proved, and the session gets the identifier of that peer')
    R.rule('lookup', 'looking up a peer gives the registered peer with that identifier or key, nothing only if there is none')
    R.rule('compare', 'the comparison of keys says yes only if all bytes are equal')
    text, R.sources = build.noise(KEEP)
    mod = ir.parse_module(text)
    C = Ctx()
    C.R, C.mod, C.L = R, mod, Layout(mod)

    def members(*names):
        return next((x['members'] for n in names for x in mod.structs().get(n) or () if x['members']), {})
    C.dev = members('Noise_XK_device_t_s', 'Noise_XK_device_t')
    C.peer = members('Noise_XK_peer_t_s', 'Noise_XK_peer_t')
    C.cell = members('Noise_XK_cell_s', 'Noise_XK_cell')
    gone = [n for n, m in [(n, C.dev) for n in ('dv_spriv', 'dv_spub', 'dv_prologue', 'dv_peers', 'dv_peers_counter')] + [(n, C.peer) for n in ('p_id', 'p_s')] +
            [(n, C.cell) for n in ('next', 'data')] if n not in m]
    gone += [f for f in ('Noise_XK_device_create', 'Noise_XK_device_add_peer', 'Noise_XK_session_create_initiator', 'Noise_XK_session_create_responder', 'Noise_XK_session_read',
                         'Noise_XK_session_write', BYID, BYKEY) if f not in mod.fns]
    if gone or C.L.root is None:
        R.broken('%s is gone' % (gone[0] if gone else 'the session type'))
        return
    for f in ('Noise_XK_device_create', 'Noise_XK_device_create_from_secret'):
        if f in mod.fns:
            device(C, f)
    register(C)
    for f in ('Noise_XK_session_create_initiator', 'Noise_XK_session_create_responder', 'Noise_XK__session_create_initiator_with_ephemeral', 'Noise_XK__session_create_responder_with_ephemeral'):
        if f in mod.fns:
            session(C, f)
    for role in (0, 1):
        for way in ('read', 'write'):
            for phase, step in ((0, 0), (0, 1), (0, 2), (1, None)):
                step_of(C, role, way, phase, step)
    lookup(C)
    if 'Noise_XK_lbytes_eq' in mod.fns:
        compare(C)
    R.floor('device', 5)
    R.floor('register', 5)
    R.floor('unique', 2)
    R.floor('session', 6)
    R.floor('admit', 2)
    R.floor('lookup', 6)
    if 'Noise_XK_lbytes_eq' in mod.fns:
        R.floor('compare', 1)


def taken(C):
    """a peer taken from the cell a loop stands at stays one of the list when the loop goes on"""
    def hook(T, st, ins):
        if ins.op == 'load' and ins.ty[0] == 'ptr':
            x = T.fn.val(('loc', ins.name), ins.ty)
            a = x.single()
            c = (a[1] - C.cell['data'][0]).single() if a and a[0] == 'ld' and isinstance(a[1], Poly) else None
            if c and c[0] == 'phi':
                st = flow.State(st.facts, st.must | {('of', x, str(c[2]))}, st.may)
        return st
    return hook


def run(C, f, **kw):
    fn = Fn(C.mod, f, effects=FX, **kw)
    return fn, Terms(fn, walk=True, hook=taken(C))


def kept(T):
    """successful returns of a function giving an object"""
    for r, st, v in T.F.returns():
        st = flow.assume(st, Not(Eq(v)))
        if st is not None:
            yield r, st, poly(T.num(st, v))


def head(C, dv):
    return ld(ld(poly(dv) + C.dev['dv_peers'][0]))


def outs(T, bn):
    b = T.fn.f.blocks[bn]
    for st in T.F.at.get(bn, {}).values():
        st = T.F.transfer(b, st)
        if st is not None:
            yield T.compared(st)


def walker(C, T, a, dv):
    """the loop in which a goes from the first cell of the list to the next and the next"""
    fn = T.fn
    d = fn.f.defs.get(a[2]) if a and a[0] == 'phi' else None
    if d is None or d.block.name not in fn.loops:
        return None
    for o, bn in zip(d.ops, d.extra['blocks']):
        if bn not in fn.alive:
            continue
        want = ld(poly(a) + C.cell['next'][0]) if (bn, d.block.name) in fn.backedges else head(C, dv)
        raw = fn.val(o, d.ty)
        for st in outs(T, bn):
            st = flow.assume(st, fn.edge_cond(fn.f.blocks[bn], d.block))
            if st is not None and raw != want and T.num(st, raw) != want and not (st.holds(Eq(raw)) is True and st.holds(Eq(want)) is True) \
                    and not (want == head(C, dv) and T.num(st, want) == T.num(st, raw)):
                return None
    return d.block.name


def fn_def(T, name):
    return T.fn.f.defs.get(name)


def listed(C, T, st, x, dv):
    """(cell, loop or None) if x is the peer of a cell of the list of dv"""
    x = poly(x)
    for t in st.must:
        if t[0] == 'of' and (t[1] == x or st.holds(Eq(t[1], x)) is True):
            d = fn_def(T, t[2])
            h = d is not None and walker(C, T, T.fn.val(('loc', d.name), d.ty).single(), dv)
            if h:
                return t[1], h
    a = x.single()
    if a is None or a[0] != 'ld' or a[3] is not None:
        return None
    cell = a[1] - C.cell['data'][0]
    if cell == head(C, dv):
        return cell, None
    h = walker(C, T, cell.single(), dv)
    return (cell, h) if h else None


def equals(st, x):
    yield x
    a = x.single()
    for l, pol in st.facts:
        if a and pol and l[0] == 'eq' and abs(l[1].coef(a)) == 1:
            yield x - l[1] * l[1].coef(a)


def element(C, x):
    """the peer whose key lies at the start of the object x"""
    a = poly(x).single()
    return a[1] - C.peer['p_s'][0] if a and a[0] == 'ld' and a[3] is None else None


def device(C, f):
    R = C.R
    fn, T = run(C, f)
    n = 0
    for r, st, v in kept(T):
        n += 1
        w = fn.where(r)

        def field(m):
            p = T.number(st, v + C.dev[m][0], 8, True)
            return (p, T.read(st, p, 32)) if p is not None else (None, ())
        a, b = field('dv_spriv'), field('dv_spub')
        if f == 'Noise_XK_device_create':
            R.ok(a[1] == bytes_at(fn.arg(4)) and a[0] != fn.arg(4), 'device', w, 'the private key of a new device is %s' % show_value(a[1]))
        R.ok(b[1] == ((('pub', a[1]), 0, 32),), 'device', w, 'the public key of a new device is %s' % show_value(b[1]))
        o = v + C.dev['dv_prologue'][0]
        size, buf = T.number(st, o, 4), T.number(st, o + 8, 8, True)
        want = 0 if st.holds(Eq(fn.arg(0))) is True else T.num(st, fn.arg(0))
        got = T.read(st, buf, want) if buf is not None and want != 0 else ()
        ok = size is not None and (T.num(st, size) == want or size == fn.arg(0)) and (want == 0 or buf != fn.arg(1) and got == normal((((('in', fn.arg(1).single())), 0, want),)))
        R.ok(ok, 'device', w, 'the prologue of a new device is %s bytes of %s' % (show(size) if size is not None else 'unknown', show_value(got)))
        p = T.number(st, v + C.dev['dv_peers'][0], 8, True)
        q = T.number(st, p, 8, True) if p is not None else None
        R.ok(q is not None and T.num(st, q) == 0, 'device', w, 'a new device has peers')
        c = T.number(st, v + C.dev['dv_peers_counter'][0], 4)
        R.ok(c is not None and c.const() is not None and c.const() >= 1, 'device', w, 'identifiers of a new device start at %s' % (show(c) if c is not None else 'an unknown value'))
    if not n:
        R.bad('device', f, 'creating a device never succeeds')


def decided(T, st):
    """the states in which the outcomes of comparisons made are known"""
    for t in st.must:
        if t[0] == 'cmp' and st.holds(Eq(t[2])) is None:
            return [y for c in (Eq(t[2]), Not(Eq(t[2]))) for x in (flow.assume(st, c),) if x is not None for y in decided(T, x)]
    return [T.compared(st)]


def passed(C, T, h, cell, differs, end):
    """every cell passed over in the loop was found to differ"""
    fn = T.fn
    turns, bad = [], []
    for l, hh in fn.backedges:
        if hh == h:
            for st in [y for x in outs(T, l) for y in decided(T, x)]:
                st = flow.assume(st, fn.edge_cond(fn.f.blocks[l], fn.f.blocks[h]))
                r = T.F._edge(fn.f.blocks[l], fn.f.blocks[h], st) if st is not None else None
                if r is not None:
                    turns.append((st, r))
                    if not differs(st, cell):
                        bad.append(r)

    def against(s, r):
        return any(s.holds(('lit',) + f) is False for f in r.facts)
    seen = []
    while bad:
        # a cell that may be equal does no harm if from there the search can only end otherwise
        r = bad.pop()
        if r in seen:
            continue
        seen.append(r)
        if not against(end, r):
            return False
        bad += [q for s, q in turns if not against(s, r)]
    return True


def known(T, st, kind, a, b):
    """the outcome of a comparison of two values is known"""
    n = a[0][2]
    return any(t[0] == kind and t[1] == n and set(t[2]) == {a, b} for t in T.compared(st).must)


def keyof(C, cell):
    return ld(ld(cell + C.cell['data'][0]) + C.peer['p_s'][0])


def idof(C, cell):
    return ld(ld(cell + C.cell['data'][0]) + C.peer['p_id'][0], 4, False)


def none_left(C, T, st, dv, differs):
    """on the way to st the whole list was searched without success"""
    fn = T.fn
    if st.holds(Eq(head(C, dv))) is True:
        return True
    for h in fn.loops:
        for ins in fn.f.blocks[h].instrs:
            if ins.op != 'phi':
                break
            a = fn.val(('loc', ins.name), ins.ty).single() if ins.ty[0] == 'ptr' else None
            if a and a[0] == 'phi' and st.holds(Eq(poly(a))) is True and walker(C, T, a, dv) and passed(C, T, h, poly(a), differs, st):
                return True
    return False


def register(C):
    R = C.R
    fn, T = run(C, 'Noise_XK_device_add_peer')
    dv, key = fn.arg(0), bytes_at(fn.arg(2))
    old = ld(dv + C.dev['dv_peers_counter'][0], 4, False)
    n = 0
    for r, st, v in kept(T):
        n += 1
        w = fn.where(r)
        p = T.number(st, v + C.peer['p_s'][0], 8, True)
        got = T.read(st, p, 32) if p is not None else ()
        R.ok(p is not None and p != fn.arg(2) and got == key, 'register', w, 'the key registered is %s' % show_value(got))
        i = T.number(st, v + C.peer['p_id'][0], 4)
        R.ok(i is not None and i == old, 'register', w, 'the peer gets the identifier %s' % (show(i) if i is not None else 'unknown'))
        c = T.number(st, dv + C.dev['dv_peers_counter'][0], 4)
        R.ok(c is not None and (c == old + 1 or c.single() is not None and c.single()[0] in ('trunc', 'zext') and c.single()[2] == old + 1), 'register', w,
             'the next identifier is %s' % (show(c) if c is not None else 'unknown'))
        q = T.number(st, dv + C.dev['dv_peers'][0], 8, True)
        l = T.number(st, q, 8, True) if q is not None else None
        ok = l is not None and T.number(st, l + C.cell['data'][0], 8, True) == v
        nx = T.number(st, l + C.cell['next'][0], 8, True) if ok else None
        R.ok(ok and nx is not None and T.num(st, nx) == T.num(st, head(C, dv)), 'register', w, 'the list of peers is not the former one with the new peer before it')
        for m in ('dv_spriv', 'dv_spub', 'dv_prologue'):
            o, z = C.dev[m][0], C.dev[m][1]
            R.ok(T.read(st, dv + o, z) == ((('in', dv.single()), o, z),) or z == 8 and T.number(st, dv + o, z, True) == ld(dv + o), 'register', w, 'registering a peer changes %s of the device' % m)
        R.ok(st.holds(Eq(old, 2 ** 32 - 1)) is False or T.ge0(st, poly(2 ** 32 - 2) - old), 'unique', w, 'the last identifier is handed out and the next one repeats')
        R.ok(none_left(C, T, st, dv, lambda s, cell: known(T, s, 'differ', bytes_at(keyof(C, cell)), key)), 'unique', w, 'a peer is added without its key being compared with all registered ones')
    if not n:
        R.bad('register', fn.name, 'registering a peer never succeeds')


def session(C, f):
    R = C.R
    role = 0 if 'initiator' in f else 1
    rname, case, tag = ROLES[role]
    pid, dvf = C.L.at('val', case, 'pid'), C.L.at('val', case, 'dv')
    rsf = C.L.at('val', case, 'state', 'val', 'case_IMS_Handshake', 'rs')
    if pid is None or dvf is None or rsf is None:
        R.broken('a member of the session type is gone')
        return
    fn, T = run(C, f)
    dv = fn.arg(0)
    n = 0
    for r, st, v in kept(T):
        n += 1
        w = fn.where(r)
        d = T.number(st, v + dvf[0], 8, True)
        R.ok(d is not None and d == dv, 'session', w, 'a new %s session belongs to another device' % rname)
        i = T.number(st, v + pid[0], pid[1])
        if role == 1:
            R.ok(i == ZERO, 'session', w, 'a new responder session already has a peer')
            continue
        want = next((fn.arg(k) for k in range(1, len(fn.f.params)) if fn.arg(k) == i), fn.arg(1))
        R.ok(i is not None and T.num(st, i) == T.num(st, want), 'session', w, 'a new initiator session is with peer %s' % (show(i) if i is not None else 'unknown'))
        p = T.number(st, v + rsf[0], 8, True)
        rs = T.read(st, p, 32) if p is not None else ()
        a = rs[0][0][1] if len(rs) == 1 and rs[0][0][0] == 'in' and rs[0][1] == 0 and rs[0][2] == 32 else None
        x = element(C, poly(a)) if a else None
        on = listed(C, T, st, x, dv) if x is not None else None
        ok = on is not None and any(same_id(T, st, ld(y + C.peer['p_id'][0], 4, False), want) for y in equals(st, x))
        R.ok(ok, 'session', w, 'a new initiator session uses the key %s, not known to be that of the given peer' % show_value(rs))
    if not n:
        R.bad('session', f, 'creating a %s session never succeeds' % rname)


def same_id(T, st, a, b):
    return st.holds(Eq(a, b)) is True or T.num(st, a) == T.num(st, b)


def step_of(C, role, way, phase, step):
    R, L = C.R, C.L
    rname, case, tag = ROLES[role]
    if phase == 0 and (way == 'write') != ((step + role) % 2 == 0):
        return
    st_ = ('val', case, 'state')
    hs = st_ + ('val', 'case_IMS_Handshake')
    tags = L.at('tag'), L.at(*(st_ + ('tag',)))
    pid, dvf, stp, key = L.at('val', case, 'pid'), L.at('val', case, 'dv'), L.at(*(hs + ('step',))), L.at(*(st_ + ('val', 'case_IMS_Transport', 'send_key')))
    cells = {(1,) + tags[0]: tag, (1,) + tags[1]: phase}
    if phase == 0:
        cells[(1,) + stp] = step
    fn = Fn(C.mod, 'Noise_XK_session_' + way, entry_cells=cells, effects=FX)
    sn = fn.arg(1)
    facts = set()
    if phase == 0:
        for k in ('cipher_key', 'chaining_key', 'h', 'spriv', 'spub', 'epriv', 'epub', 'rs', 're'):
            facts.update(flow.literals(Not(Eq(ld(sn + L.at(*(hs + (k,)))[0])))))
    T = Terms(fn, init=flow.State(frozenset(facts)), walk=True, hook=taken(C))
    last = (role, way, phase, step) == (1, 'read', 0, 2)
    who = '%s, %s' % (rname, 'handshake step %d' % step if phase == 0 else 'transport ' + way)
    for r, st, good in returns(T.F):
        if not good:
            continue
        w = fn.where(r)
        got = T.read(st, sn + pid[0], pid[1])
        if not last:
            R.ok(T.number(st, sn + pid[0], pid[1]) == ld(sn + pid[0], pid[1], False), 'session', w, '%s: the peer of the session becomes %s' % (who, show_value(got)))
            continue
        p = T.number(st, sn + key[0], 8, True)
        used = proven(T.read(st, p, 32)) if p is not None else set()
        dv = ld(sn + dvf[0])
        hits = []
        for t in T.compared(st).must:
            for rs, o in (t[2], t[2][::-1]) if t[0] == 'same' and t[1] == 32 else ():
                if rs not in used or rs[0][0][0] == 'in':
                    continue
                x = element(C, poly(o[0][0][1])) if len(o) == 1 and o[0][0][0] == 'in' and o[0][1] == 0 else None
                if x is not None and listed(C, T, st, x, dv):
                    hits.append(x)
        R.ok(bool(hits), 'admit', w, 'the handshake completes although the key it proved was not found equal to that of a registered peer')
        i = T.number(st, sn + pid[0], pid[1])
        R.ok(any(i is not None and same_id(T, st, i, ld(x + C.peer['p_id'][0], 4, False)) for x in hits), 'admit', w, 'the session gets the identifier %s, not that of the peer with this key' % show_value(got))


def proven(v):
    """the public keys that went into v by Diffie-Hellman"""
    out = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'dh':
                out.add(x[2])
            st += x
    return out


def lookup(C):
    R = C.R
    for f in (BYID, BYKEY):
        fn, T = run(C, f)
        dv, want = fn.arg(0), fn.arg(1)
        n = 0
        for r, st, v in T.F.returns():
            w = fn.where(r)
            if f == BYID:
                def differs(s, cell):
                    return s.holds(Eq(idof(C, cell), want)) is False
            else:
                def differs(s, cell):
                    return known(T, s, 'differ', bytes_at(keyof(C, cell)), bytes_at(want))
            got = flow.assume(st, Not(Eq(v)))
            if got is not None:
                n += 1
                x = poly(T.num(got, v))
                ok = False
                for y in equals(got, x):
                    if listed(C, T, got, y, dv):
                        if f == BYID:
                            ok |= same_id(T, got, ld(y + C.peer['p_id'][0], 4, False), want)
                        else:
                            ok |= known(T, got, 'same', bytes_at(ld(y + C.peer['p_s'][0])), bytes_at(want))
                R.ok(ok, 'lookup', w, 'gives the peer %s, not known to be a registered one that matches' % show(x))
            no = flow.assume(st, Eq(v))
            if no is not None and not (got is not None and st.holds(Eq(v)) is None):
                R.ok(f == BYID and no.holds(Eq(want)) is True or none_left(C, T, no, dv, differs), 'lookup', w, 'gives nothing although not all registered peers were looked at')
        if not n:
            R.bad('lookup', f, 'never finds a peer')
    for f, arg in (('Noise_XK_peer_get_id', 'peer'), ('Noise_XK_session_get_peer_id', 'session')):
        if f not in C.mod.fns:
            continue
        for role in (0, 1) if arg == 'session' else (0,):
            rname, case, tag = ROLES[role]
            cells = {(0,) + C.L.at('tag'): tag} if arg == 'session' else {}
            fn, T = run(C, f, entry_cells=cells)
            o = C.L.at('val', case, 'pid')[0] if arg == 'session' else C.peer['p_id'][0]
            for r, st, v in T.F.returns():
                x = T.num(st, v)
                R.ok(poly(x) == ld(fn.arg(0) + o, 4, False) or arg == 'peer' and st.holds(Eq(fn.arg(0))) is True, 'lookup', fn.where(r), 'the identifier of a %s is given as %s' % (arg, show(poly(x))))


def compare(C):
    R = C.R
    fn = Fn(C.mod, 'Noise_XK_lbytes_eq', effects=FX)
    T = Terms(fn, walk=True)
    n, a, b = fn.arg(0), fn.arg(1), fn.arg(2)

    def both(h):
        k = poly(fn.ivinfo[h]['k'])
        for e in (k, n - 1 - k, poly(('zext', 32, n - 1 - k))):
            yield ld(a + e, 1, False), ld(b + e, 1, False)
    for r, st, v in T.F.returns():
        yes = flow.assume(st, Not(Eq(v)))
        if yes is None:
            continue
        w = fn.where(r)
        ok = any(t[0] == 'same' and t[1] == T.num(yes, n) and {t[2][0], t[2][1]} == {bytes_at(a, t[1]), bytes_at(b, t[1])} for t in T.compared(yes).must)
        for h, x, y in [(h, x, y) for h in fn.loops for x, y in both(h)]:
            for l, pol in yes.facts:
                # or of the differences over all bytes
                acc = l[1].single() if l[0] == 'eq' and pol else None
                d = fn.f.defs.get(acc[2]) if acc and acc[0] == 'phi' else None
                if d is not None and d.block.name == h and T.trips(h) == n:
                    ok |= all(fn.val(o, d.ty) == ZERO if (bn, h) not in fn.backedges else gathers(fn.val(o, d.ty), acc, x, y) for o, bn in zip(d.ops, d.extra['blocks']) if bn in fn.alive)
            k = poly(fn.ivinfo[h]['k'])
            # or leaving at the first difference
            ls = [s for l, hh in fn.backedges if hh == h for s in outs(T, l)]
            ok |= T.ge0(yes, k - n) and bool(ls) and all(s.holds(Eq(x, y)) is True for s in ls)
        R.ok(ok, 'compare', w, 'says yes although bytes may differ')


def gathers(q, acc, x, y):
    a = q.single()
    if a and a[0] in ('zext', 'trunc'):
        return gathers(poly(a[2]), acc, x, y)
    if not a or a[0] != 'op' or a[1] not in ('or',):
        return False
    rest = [poly(z) for z in a[2:] if poly(z) != poly(acc)]
    return len(rest) == 1 and len(a) == 4 and Eq(rest[0], 0) in (Eq(x, y), Eq(y, x))
