"""P33 bindings hand each argument to the native parameter of its role and return the native outputs"""
TECHNIQUE = 'abstract interpretation of the Python syntax trees (origin of every value passed to and returned from native code) against a table of parameter roles'
NOTE = 'every binding function, all arguments; a value counts as handed over only if it is the whole, unchanged argument in its order'
from pyapi import *

# per binding: native calls with the role of each parameter, and what is returned.
# pK the K-th argument, lK its length, dK the K-th argument or its default, ldK the length of that, oK an output (a buffer of
# its own), iK.J item J of an argument, eK.J item J of each element of an argument, cX a constant, r:F the result of F, * anything
SPEC = {
    'keygen': (['oprf_KeyGen o0'], 'o0'),
    'blind': (['oprf_Blind p0 l0 o0 o1'], ('o0', 'o1')),
    'evaluate': (['oprf_Evaluate p0 p1 o0'], 'o0'),
    'unblind': (['oprf_Unblind p0 p1 o0'], 'o0'),
    'finalize': (['oprf_Finalize p0 l0 p1 o0'], 'o0'),
    'unblind_finalize': (['oprf_Unblind p0 p1 o0', 'oprf_Finalize p2 l2 o0 o1'], 'o1'),
    'coeff': (['coeff p0 l1 p1 o0'], 'o0'),
    'create_shares': (['toprf_create_shares p0 p1 p2 o0'], 'o0/share'),
    'thresholdmult': (['toprf_thresholdmult l0 p0 o0'], 'o0'),
    'threshold_evaluate': (['toprf_Evaluate p0 p1 p2 p3 l3 o0'], 'o0'),
    'threshold_combine': (['toprf_thresholdcombine l0 p0 o0'], 'o0'),
    '_3hashtdh': (['toprf_3hashtdh p0 p1 p2 p3 l3 o0'], 'o0'),
    'dkg_start': (['dkg_start p0 p1 o0 o1'], ('o0', 'o1/share')),
    'dkg_verify_commitments': (['dkg_verify_commitments p0 p1 p2 p3 p4 o0 o1'], 'o0:o1'),
    'dkg_finish': (['dkg_finish p0 p1 p2 o0'], 'o0'),
    'dkg_reconstruct': (['dkg_reconstruct l0 p0 o0'], 'o0'),
    'tpdkg_start_tp': (['tpdkg_start_tp o0 p2 p0 p1 p3 l3 * o1', 'tpdkg_tp_set_bufs o0 o2 o3 o4 o5 lo5 o6 p4 o7'], (('o0', 'o5'), 'o1')),
    'tpdkg_tp_input_size': (['tpdkg_tp_input_size i0.0'], 'r:tpdkg_tp_input_size'),
    'tpdkg_tp_input_sizes': (['tpdkg_tp_input_sizes i0.0 o0'], ('r:tpdkg_tp_input_sizes', 'o0')),
    'tpdkg_tp_output_size': (['tpdkg_tp_output_size i0.0'], 'r:tpdkg_tp_output_size'),
    'tpdkg_tp_next': (['tpdkg_tp_next i0.0 p1 * o0 r:tpdkg_tp_output_size'], 'o0'),
    'tpdkg_tp_peer_msg': (['tpdkg_tp_peer_msg i0.0 p1 l1 p2 o0 o1'], 'o0:o1'),
    'tpdkg_tp_not_done': (['tpdkg_tp_not_done i0.0'], '*'),
    'tpdkg_get_cheaters': (['tpdkg_cheater_msg i0.1.* o0 *'], '*'),
    'tpdkg_peer_start': (['tpdkg_start_peer o0 p0 p1 p2', 'tpdkg_peer_set_bufs o0 o1 o2 o3 o4 o5 o6 o7 o8 o9 o10'], ('o0',)),
    'tpdkg_peer_input_size': (['tpdkg_peer_input_size i0.0'], 'r:tpdkg_peer_input_size'),
    'tpdkg_peer_output_size': (['tpdkg_peer_output_size i0.0'], 'r:tpdkg_peer_output_size'),
    'tpdkg_peer_next': (['tpdkg_peer_next i0.0 p1 * o0 r:tpdkg_peer_output_size'], 'o0'),
    'tpdkg_peer_not_done': (['tpdkg_peer_not_done i0.0'], '*'),
    'tpdkg_peer_free': (['tpdkg_peer_free i0.0'], '*'),
}
NOISE = {
    'add_peer': (['Noise_XK_device_add_peer p0 p1 p2'], 'r:Noise_XK_device_add_peer'),
    'pubkey': (['Noise_XK_dh_secret_to_public o0 p0'], 'o0'),
    'create_device': (['Noise_XK_device_create l0 p0 p1 * p2'], 'r:Noise_XK_device_create'),
    'get_peerid': (['Noise_XK_peer_get_id p0'], 'r:Noise_XK_peer_get_id'),
    'create_session_initiator': (['Noise_XK_session_create_initiator p0 p1'], 'r:Noise_XK_session_create_initiator'),
    'create_session_responder': (['Noise_XK_session_create_responder p0'], 'r:Noise_XK_session_create_responder'),
    'initiator_1st_msg': (['Noise_XK_session_write r:Noise_XK_pack_message_with_conf_level p0 o0 o1'], 'o1:o0'),
    'responder_1st_msg': (['Noise_XK_session_read o0 p0 l1 p1', 'Noise_XK_session_write r:Noise_XK_pack_message_with_conf_level p0 o1 o2'], 'o2:o1'),
    'initiator_handshake_finish': (['Noise_XK_session_read o0 p0 l1 p1'], '*'),
    'send_msg': (['Noise_XK_pack_message_with_conf_level c5 l1 p1', 'Noise_XK_session_write r:Noise_XK_pack_message_with_conf_level p0 o0 o1'], 'o1:o0'),
    'read_msg': (['Noise_XK_session_read o0 p0 l1 p1', 'Noise_XK_unpack_message_with_auth_level o1 o2 c2 o0'], 'o2:o1'),
    'get_pubkey': (['Noise_XK_session_get_peer_id p0', 'Noise_XK_device_lookup_peer_by_id p1 r:Noise_XK_session_get_peer_id', 'Noise_XK_peer_get_static o0 r:Noise_XK_device_lookup_peer_by_id'], 'o0'),
    'initiator_session': (['Noise_XK_device_create ld4 d4 d2 * p0', 'Noise_XK_device_add_peer r:Noise_XK_device_create d3 p1', 'Noise_XK_peer_get_id r:Noise_XK_device_add_peer',
                           'Noise_XK_session_create_initiator r:Noise_XK_device_create r:Noise_XK_peer_get_id',
                           'Noise_XK_session_write r:Noise_XK_pack_message_with_conf_level r:Noise_XK_session_create_initiator o0 o1'], ('r:Noise_XK_session_create_initiator', 'o1:o0')),
    'responder_session': (['Noise_XK_device_create ld3 d3 d4 * p0', 'Noise_XK_device_add_peer r:Noise_XK_device_create e1.1 e1.0', 'Noise_XK_session_create_responder r:Noise_XK_device_create',
                           'Noise_XK_session_read o0 r:Noise_XK_session_create_responder l2 p2',
                           'Noise_XK_session_write r:Noise_XK_pack_message_with_conf_level r:Noise_XK_session_create_responder o1 o2'], ('r:Noise_XK_session_create_responder', 'o2:o1')),
    'initiator_session_complete': (['Noise_XK_session_read o0 p0 l1 p1'], '*'),
}
SHARE = 33


def check(R):
    R.rule('argument', 'each native parameter gets the whole argument of its role')
    R.rule('own', 'outputs go to buffers of their own')
    R.rule('called', 'the native functions a binding stands for are called')
    R.rule('returned', 'what is returned is what the native function wrote, whole and in the documented order')
    R.rule('default', 'both ends of a channel use the same defaults')
    B = Bindings()
    R.sources = B.sources
    defaults = {}
    for m, spec in zip(B.modules, (SPEC, NOISE)):
        gone = [n for n in spec if n not in m.fns]
        if len(gone) > len(spec) // 2:
            return R.broken('%s: %s are gone' % (m.rel, ', '.join(gone[:4])))
        for nm in gone:
            R.bad('called', m.rel, 'the binding %s is gone' % nm)
        for nm, (calls, ret) in spec.items():
            if nm in m.fns:
                binding(R, B, m, m.fns[nm], calls, ret, defaults)
    a, b = defaults.get(('initiator_session', 4), set()), defaults.get(('responder_session', 3), set())
    R.ok(len(a) == 1 and a == b, 'default', B.modules[1].rel, 'the prologue used by default differs between the ends of a channel')
    R.floor('argument', 80)
    R.floor('own', 20)
    R.floor('returned', 30)


def gave(m, name, args, r, s):
    return s.tag(('gave', name) + tuple(args))


def binding(R, B, m, f, calls, ret, defaults):
    m.after = gave
    ends = m.analyse(f)
    events = list(m.events)
    O = Origins(m)
    names = [x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
    outs = {}
    for c in calls:
        fn, *roles = c.split()
        evs = [e for e in events if e.name == fn]
        R.ok(bool(evs), 'called', B.where(m, f.name, f), '%s does not call %s' % (f.name, fn))
        defined = set()
        for e in evs:
            w = B.where(m, f.name, e.node)
            if len(e.args) != len(roles):
                R.bad('argument', w, '%s gets %d arguments' % (fn, len(e.args)))
                continue
            for k, (r, a) in enumerate(zip(roles, e.args)):
                if r == '*':
                    continue
                d = B.protos[fn].params[k].name if fn in B.protos and k < len(B.protos[fn].params) else str(k)
                if r[0] == 'o':
                    got = O.of(a)
                    objs = {x[1] for x in got if x[0] == 'new'}
                    if r not in outs or r in defined:
                        defined.add(r)
                        R.ok(bool(got) and len(objs) == len(got), 'own', w, '%s: what %s points to is not a buffer of its own' % (fn, d))
                        outs.setdefault(r, set()).update(objs)
                    else:
                        R.ok(bool(got) and len(objs) == len(got) and objs <= outs[r], 'argument', w, '%s: %s is not what the earlier step gave' % (fn, d))
                    continue
                ok, text = role(O, r, a, names, f, outs, defaults)
                R.ok(ok, 'argument', w, '%s: %s does not get %s' % (fn, d, text))
    seen = {}
    for r, objs in outs.items():
        for o in objs:
            R.ok(seen.setdefault(o, r) == r, 'own', B.where(m, f.name, f), 'two outputs share one buffer')
    for c in calls:
        fn, *roles = c.split()
        each = [(k, r) for k, r in enumerate(roles) if r[0] == 'e']
        if each:
            for s, v, node in ends:
                ok = any(t[0] == 'all' and t[2][:2] == ('gave', fn) and len(t[2]) == len(roles) + 2 and all(role(O, r, t[2][2 + k], names, f, outs, {})[0] for k, r in each) for t in s.tags)
                R.ok(ok, 'called', B.where(m, f.name, node), '%s is not called for every element' % fn)
    if ret == '*':
        return
    for s, v, node in ends:
        w = B.where(m, f.name, node)
        ok = given(O, v, ret, outs, s)
        R.ok(ok, 'returned', w, '%s does not return what the native function gave' % f.name)


class Origins:
    """where values come from"""
    def __init__(self, m):
        self.m = m

    def of(self, v, seen=()):
        """set of origins; ('odd',) for anything changed or made up"""
        v = unwrap(v)
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return {('const', c)}
            a = v.single()
            if a is None or v.coef(a) != 1 or v.c0() != 0:
                return {('odd',)}
            v = a
        k = v[0]
        if k == 'len':
            return {('len', x) for x in self.of(v[1], seen)}
        if k == 'trunc':
            return self.of(v[2], seen)
        if k == 'val':
            return {('count', x) for x in self.of(v[1], seen)}
        if v in seen:
            return set()
        seen += (v,)
        if k == 'phi':
            j = self.joined(v)
            if j is not None:
                return self.of(j, seen)
            out = set()
            for x in pyflow.PHIS.get(v, ()):
                out |= self.of(x, seen)
            return out or {('odd',)}
        if k == 'par':
            return {v}
        if k == 'none':
            return {('const', None)}
        if k in ('bstr', 'str', 'const'):
            return {('const', v[1])}
        if k == 'buf':
            if v[4] is not None and v[3] is not None:
                return self.of(v[4], seen) if v not in self.m.filled else {('odd',)}
            return {('new', v)}
        if k == 'arr':
            fs = self.m.filled.get(v)
            if fs and v not in self.m.changed:
                return set().union(*(self.of(x, seen) for x in fs))
            return {('new', v)}
        if k in ('raw', 'bytesof', 'join', 'iterof') or k == 'listof' and len(v) == 2:
            return self.of(v[1], seen)
        if k == 'attr' and v[2] in ('raw', 'value'):
            return self.of(v[1], seen)
        if k == 'map' and v[1] is not None and v[2] == ('elem', v[1], v[3]):
            return self.of(v[1], seen)
        if k == 'slice' and v[3] is None and num(v[2]) == poly(0):
            return self.of(v[1], seen)
        if k == 'cval':
            return self.of(v[2], seen) if v[2] is not None else {('new', v)}
        if k in ('mem', 'sobj', 'nptr'):
            return {('new', v)}
        if k == 'byref':
            return self.of(v[1], seen) if v[2] == poly(0) else {('odd',)}
        if k == 'res':
            return {('res', v[2])}
        if k == 'sub':
            i = num(v[2])
            i = i.const() if i.const() is not None else '*'
            return {('item', x, i) for x in self.of(v[1], seen)}
        if k == 'elem':
            return {('each', x) for x in self.of(v[1], seen)}
        if k == 'opaque' and v[1] == 'encoded' and len(v) > 3:
            return self.of(v[3], seen)
        if k == 'pval':
            return self.of(v[1], seen)
        return {('odd',)}

    def joined(self, v):
        """the list a variable collects the elements of, in order"""
        xs = pyflow.PHIS.get(v, set())
        src = set()
        for x in xs:
            if isinstance(x, tuple) and x[0] == 'bstr' and x[1] == b'':
                continue
            e = x[2] if isinstance(x, tuple) and x[0] == 'cat' and x[1] == v else None
            if isinstance(x, Poly) and x.coef(v) == 1 and (x - poly(v)).single():
                e = (x - poly(v)).single()
            if not (isinstance(e, tuple) and e[0] == 'elem' and e[2] == v[1]):
                return None
            src.add(e[1])
        return src.pop() if len(src) == 1 and len(xs) == 2 else None


def role(O, r, a, names, f, outs, defaults):
    """(does the argument have the role, description)"""
    got = O.of(a)
    if r.startswith('r:'):
        return got == {('res', r[2:])}, 'the result of ' + r[2:]
    if r[0] == 'c':
        return got == {('const', int(r[1:]))}, r[1:]
    if r.startswith('lo'):
        v = unwrap(a)
        p = num(O.m.attr(v, 'value', S({}, State()), None) if isinstance(v, tuple) and v[0] == 'cval' else v)
        objs = outs.get(r[1:], ())
        return any(p == num(o[3] if o[0] == 'arr' else o[2]) for o in objs if o[0] in ('arr', 'buf')), 'the number of entries of its buffer'
    ln = r[0] == 'l'
    if ln:
        if not all(x[0] == 'len' for x in got):
            return False, 'the length of an argument'
        got = {x[1] for x in got}
        r = r[1:] if r[1] == 'd' else 'p' + r[1:]
    what = ('the length of ' if ln else '') + 'argument %s'
    if r[0] == 'd':
        k = int(r[1:])
        par = ('par', names[k])
        rest = got - {par}
        if not ln:
            defaults.setdefault((f.name, k), set()).update(x for x in rest)
        return par in got and all(x[0] == 'const' and x[1] for x in rest) and len(rest) <= 1, what % names[k]
    if r[0] == 'p':
        return got == {('par', names[int(r[1:])])}, what % names[int(r[1:])]
    k, *path = r[1:].split('.')
    want = ('par', names[int(k)])
    if r[0] == 'e':
        want = ('each', want)
    for x in path:
        want = ('item', want, '*' if x == '*' else int(x))
    return got == {want}, 'its part of argument %s' % names[int(k)]


def given(O, v, ret, outs, s):
    v = unwrap(v)
    if isinstance(ret, tuple):
        while isinstance(v, tuple) and v[0] == 'listof' and len(v) == 2:
            v = unwrap(v[1])
        if not (isinstance(v, tuple) and v[0] in ('tuple', 'list')):
            return False
        return len(v[1]) >= len(ret) and all(given(O, x, r, outs, s) for x, r in zip(v[1], ret))
    if isinstance(v, tuple) and v[0] == 'phi' and v in pyflow.PHIS:
        return all(given(O, x, ret, outs, s) for x in pyflow.PHIS[v])
    if ret.startswith('r:'):
        return O.of(v) == {('res', ret[2:])}
    if '/' in ret:
        return split(O, v, outs.get(ret.split('/')[0], ()))
    if ':' in ret:
        o, n = ret.split(':')
        return upto(O, v, outs.get(o, ()), outs.get(n, ()), s)
    got = whole(O, v)
    return bool(got) and got <= set(outs.get(ret, ()))


def whole(O, v):
    """buffers whose whole contents a value is"""
    v = unwrap(v)
    if isinstance(v, Poly):
        return set()
    if v[0] == 'slice' and num(v[2]) == poly(0) and isinstance(v[1], tuple):
        b = v[1][1] if v[1][0] == 'raw' else v[1]
        n = b[2] if b[0] == 'buf' else b[3] if b[0] == 'arr' else None
        if v[3] is None or n is not None and num(v[3]) == n:
            return {x[1] for x in O.of(b) if x[0] == 'new'}
    got = O.of(v)
    return {x[1] for x in got} if all(x[0] == 'new' and x[1] not in O.m.changed for x in got) else set()


def split(O, v, objs):
    """the value is a buffer cut into shares"""
    while isinstance(v, tuple) and v[0] == 'listof' and len(v) == 2:
        v = unwrap(v[1])
    if not (isinstance(v, tuple) and v[0] == 'map') or v[1] is None:
        return isinstance(v, tuple) and v[0] == 'chunks' and cut(O, v, objs)
    xs, e, key = v[1], unwrap(v[2]), v[3]
    while isinstance(xs, tuple) and xs[0] == 'listof' and len(xs) == 2:
        xs = unwrap(xs[1])
    while isinstance(e, tuple) and e[0] in ('raw', 'bytesof', 'listof'):
        e = unwrap(e[1])
    if isinstance(xs, tuple) and xs[0] == 'chunks':
        return isinstance(e, tuple) and e[0] == 'elem' and cut(O, xs, objs)
    if isinstance(xs, tuple) and xs[0] == 'map' and xs[1] is not None and isinstance(e, tuple) and e[0] == 'elem':
        return split(O, xs, objs)
    if isinstance(xs, tuple) and xs[0] == 'range' and isinstance(e, tuple) and e[0] == 'slice' and e[3] is not None:
        i = ('idx', xs, key)
        lo, hi = num(e[2]), num(e[3])
        b = whole(O, e[1])
        if not b or not b <= set(objs) or hi - lo != poly(SHARE):
            return False
        n = next(iter(b))[2]
        if len(xs) == 4:
            return lo == poly(i) and xs[1] == poly(0) and num(xs[2]) == n and num(xs[3]) == poly(SHARE)
        return lo == poly(i) * SHARE and xs[1] == poly(0) and num(xs[2]) * SHARE == n
    return False


def cut(O, c, objs):
    b = whole(O, c[1])
    return bool(b) and b <= set(objs) and c[2] == poly(SHARE)


def upto(O, v, objs, counts, s):
    """the value is as much of a buffer as the count says"""
    while isinstance(v, tuple) and v[0] in ('raw', 'bytesof', 'join', 'listof') and len(v) == 2:
        v = unwrap(v[1])
    if not isinstance(v, tuple):
        return False

    def count(n):
        a = num(n).single()
        return a is not None and num(n) == poly(a) and a[0] == 'val' and a[1] in counts
    if v[0] == 'slice':
        b = whole(O, v[1])
        return bool(b) and b <= set(objs) and num(v[2]) == poly(0) and v[3] is not None and count(v[3])
    if v[0] == 'map' and isinstance(v[1], tuple) and v[1][0] == 'range':
        xs, e = v[1], unwrap(v[2])
        while isinstance(e, tuple) and e[0] in ('raw', 'bytesof'):
            e = unwrap(e[1])
        if not (isinstance(e, tuple) and e[0] == 'sub' and num(e[2]) == poly(('idx', xs, v[3]))):
            return False
        b = whole(O, e[1])
        return bool(b) and b <= set(objs) and xs[1] == poly(0) and count(xs[2]) and len(xs) == 3
    return False
