"""P23 Python bindings never pass undersized buffers to native code"""
TECHNIQUE = 'abstract interpretation of the Python syntax trees (symbolic buffer sizes, must-facts about lengths) against array sizes in the C headers; bound analysis of the accesses native code makes over inlined LLVM IR'
NOTE = 'every native call reachable from every binding function, for all argument lengths and values; objects are taken to be shorter than 2^31 bytes'
from pyapi import *
import flow, ir
from flow import Fn, Facts
import p13

KEY = 32
# sizes of pointer parameters whose declaration carries none: number of bytes, '#i' = value of parameter i, '@x' = a C constant;
# inputs ('=') have exactly that size
SIZES = {
    'oprf_Blind': {0: '=#1'}, 'oprf_Finalize': {0: '=#1'}, 'toprf_Evaluate': {3: '=#4'}, 'toprf_3hashtdh': {3: '=#4'},
    'dkg_verify_commitments': {6: 1}, 'dkg_finish': {3: '@sizeof(TOPRF_Share)'},
    'tpdkg_start_tp': {0: '@extent(TP_DKG_TPState)', 4: '=#5', 7: '#6'},
    'tpdkg_start_peer': {0: '@extent(TP_DKG_PeerState)', 3: '@tpdkg_msg0_SIZE'},
    'tpdkg_tp_next': {1: '=#2', 3: '#4'}, 'tpdkg_peer_next': {1: '=#2', 3: '#4'},
    'tpdkg_tp_peer_msg': {1: '=#2', 4: 8, 5: 8}, 'tpdkg_cheater_msg': {1: '#2'}, 'tpdkg_tp_input_sizes': {1: 'n*8'},
    'tpdkg_tp_set_bufs': {1: 'n*t*32', 2: 'n*n*2', 3: 'n*n*msg8', 4: '#5*@sizeof(TP_DKG_Cheater)', 6: 'n*32', 7: 'n*32', 8: 'n*8'},
    'tpdkg_peer_set_bufs': {1: 'n*32', 2: 'n*32', 3: 'n*8', 4: 'n*8', 5: 'n*share', 6: 'n*share', 7: 'n*t*32', 8: 'n*n*2', 9: 'n', 10: 'n*8'},
    'Noise_XK_session_read': {0: 8, 3: '=#2'}, 'Noise_XK_session_write': {2: 4, 3: 8}, 'Noise_XK_pack_message_with_conf_level': {2: '=#1'},
    'Noise_XK_unpack_message_with_auth_level': {0: 4, 1: 8}, 'Noise_XK_device_create': {1: '=#0', 3: KEY, 4: KEY}, 'Noise_XK_device_add_peer': {2: KEY},
    'Noise_XK_dh_secret_to_public': {0: KEY, 1: KEY}, 'Noise_XK_peer_get_static': {0: KEY},
}
# memory a native function hands out: (pointer parameter, parameter with its length)
OUT = {'Noise_XK_session_write': (3, 2), 'Noise_XK_unpack_message_with_auth_level': (1, 0), 'tpdkg_tp_peer_msg': (4, 5)}
NATIVE = ('oprf_KeyGen', 'oprf_Blind', 'oprf_Evaluate', 'oprf_Unblind', 'oprf_Finalize', 'coeff', 'toprf_create_shares', 'toprf_thresholdmult', 'toprf_Evaluate', 'toprf_thresholdcombine',
          'toprf_3hashtdh', 'tpdkg_start_tp', 'tpdkg_start_peer', 'tpdkg_tp_set_bufs', 'tpdkg_peer_set_bufs', 'dkg_start', 'dkg_verify_commitments', 'dkg_finish', 'dkg_reconstruct')


def check(R):
    R.rule('size', 'what is passed for a native pointer parameter has at least the bytes the native function may touch')
    R.rule('length', 'lengths passed along are those of the passed data')
    R.rule('fit', 'lengths and counts fit the type of the native parameter')
    R.rule('result', 'memory handed out by native code is read only up to the length given with it')
    R.rule('kept', 'buffers the native state refers to are kept as long as the state')
    R.rule('native', 'native functions touch no more of their arguments than declared')
    B = Bindings()
    text, srcs = build.library()
    R.sources = list(B.sources) + srcs
    B.mod = ir.parse_module(text)
    # nothing beyond the last member of a state is ever touched
    for nm in ('TP_DKG_TPState', 'TP_DKG_PeerState'):
        fs = B.mod.structs().get(nm)
        if not fs:
            R.broken('%s is gone' % nm)
            return
        B.c['extent(%s)' % nm] = max(v[0] + v[1] for x in fs for v in x['members'].values())
    for m in B.modules:
        for f in m.roots():
            function(R, B, m, f)
    natives(R, B)
    R.floor('size', 60)
    R.floor('length', 10)
    R.floor('fit', 20)
    R.floor('result', 3)
    R.floor('kept', 10)
    R.floor('native', 100)


class Call:
    """one native call with the sizes its parameters need"""
    def __init__(self, B, m, e):
        self.B, self.m, self.e = B, m, e
        self.d = B.protos[e.name]
        self.s = e.state
        self.val, self.fits = {}, {}
        for i, p in enumerate(self.d.params):
            if not p.ptr and i < len(e.args):
                self.val[i], self.fits[i] = intval(m, e, e.args[i], self.width(i))

    def width(self, i):
        p = self.d.params[i]
        return cdecl.WIDTH.get(p.type[-1] if p.type else 'int', 32)

    def needs(self):
        """[(parameter, bytes, exact?, counts used)]"""
        names = {p.name: i for i, p in enumerate(self.d.params)}
        for i, p in enumerate(self.d.params):
            if not p.ptr:
                continue
            x = SIZES.get(self.e.name, {}).get(i)
            if x is not None:
                exact = isinstance(x, str) and x.startswith('=')
                used = []
                yield i, self.read(x, used), exact, used
            elif p.dims and not p.behind and all(p.dims):
                env = {nm: self.val[j] for nm, j in names.items() if j in self.val}
                need = poly(1)
                used = set()
                for dim in p.dims:
                    q = cdecl.expr(dim, env)
                    if q is None:
                        need = None
                        break
                    used |= {names[w] for w in env if re.search(r'\b%s\b' % re.escape(w), dim)}
                    need = need * q
                if need is None:
                    continue
                el = p.type[-1] if p.type else 'uint8_t'
                z = cdecl.WIDTH[el] // 8 if el in cdecl.WIDTH else self.B.c.get('sizeof(%s)' % el)
                if z is None:
                    continue
                yield i, need * z, p.const and bool(used), sorted(used)

    def read(self, x, used):
        if isinstance(x, int):
            return poly(x)
        r = poly(1)
        for t in x.lstrip('=').split('*'):
            if t.startswith('#'):
                used.append(int(t[1:]))
                r = r * self.val[int(t[1:])]
            elif t.startswith('@'):
                r = r * self.B.c[t[1:]]
            elif t == 'msg8':
                r = r * self.B.c['tpdkg_msg8_SIZE']
            elif t == 'share':
                r = r * self.B.c['sizeof(TOPRF_Share)']
            elif t in ('n', 't'):
                r = r * self.group(t)
            else:
                r = r * int(t)
        return r

    def group(self, which):
        """n or t of the state passed as first argument"""
        if not self.e.args:
            return poly(('unknown', which))
        st = self.e.args[0]
        while isinstance(st, tuple) and st[0] == 'byref':
            st = st[1]
        if self.e.name == 'tpdkg_tp_set_bufs':
            for e2 in self.m.events:
                if e2.name == 'tpdkg_start_tp' and e2.stack == self.e.stack and pyflow.base(e2.args[0]) == pyflow.base(self.e.args[0]):
                    if self.s.holds(Eq(poly(e2.uid))) is not True:
                        return poly(('unknown', which))
                    n, t = [num(unwrap(x)) for x in e2.args[2:4]]
                    self.s = group_facts(self.s, n, t)
                    x = n if which == 'n' else t
                    if self.s.holds(Ge(x)) is True and self.s.holds(Ge(poly(255) - x)) is True:
                        return x
                    return poly(('unknown', which))
        return num(unwrap(self.m.attr(st, which, self.s, None)))


def group_facts(s, n, t):
    """a started session has at least three members (P12); the sizes of existing buffers are not negative"""
    s2 = s.assume(Ge(n - 3)) or s
    for f, pol in s.st.facts:
        if pol and f[0] == 'ge':
            s2 = allocated(s2, f[1])
    return s2


def allocated(s, p):
    if len(p.t) == 1:
        m, c = list(p.t)[0]
        if c > 0 and len(m) > 1:
            for a in set(m):
                rest = list(m)
                rest.remove(a)
                if all(s.holds(Ge(poly(x) - 1)) is True for x in rest):
                    s = s.assume(Ge(poly(a))) or s
    return s


def bounded(s, p, w):
    """p fits w bits, judging by the bounds of its parts"""
    if any(a[0] == 'trunc' for a in p.atoms()) or s.holds(Ge(p)) is not True:
        return False
    hi = 0
    for m, c in p.t:
        x = c
        for a in m:
            if s.holds(Ge(poly(a))) is not True:
                return False
            x *= next((b for b in (1, 255, 65535) if s.holds(Ge(poly(b) - poly(a))) is True), 2 ** 40)
        hi += max(x, 0)
    return hi < 2 ** min(w, 31)


def handle(v):
    """a state or handle made by another binding function"""
    v = unwrap(v)
    while isinstance(v, tuple) and v[0] == 'byref':
        v = v[1]
    return isinstance(v, tuple) and v[0] in ('sub', 'par', 'res', 'attr', 'elem', 'phi')


def function(R, B, m, f):
    ends = m.analyse(f)
    events = list(m.events)
    for e in events:
        if B.kind(e.name) is None:
            continue
        w = B.where(m, e.stack[-1].split(':')[0], e.node)
        d = B.protos[e.name]
        if len(e.args) != len(d.params):
            R.bad('size', w, '%s is called with %d arguments and takes %d' % (e.name, len(e.args), len(d.params)))
            continue
        C = Call(B, m, e)
        for i, need, exact, used in C.needs():
            a = e.args[i]
            p = d.params[i]
            if p.type and p.type[-1] in ('TP_DKG_TPState', 'TP_DKG_PeerState') and handle(a):
                continue
            have = m.bytesize(a, C.s)
            if need == ZERO:
                R.saw('size', w)
            else:
                R.ok(have is not None and C.s.holds(Ge(have - need)) is True, 'size', w, '%s: what is passed as %s has %s bytes, %s are needed' % (
                    e.name, p.name, show(have) if have is not None else 'an unknown number of', show(need)))
                if exact and have is not None:
                    dl = m.datalen(a, C.s)
                    R.ok(C.s.holds(Eq(dl - need)) is True, 'length', w, '%s: the length passed with %s, %s, is that of the data, %s' % (e.name, p.name, show(need), show(dl)))
            for j in used:
                R.ok(C.fits[j] or bounded(C.s, C.val[j], C.width(j)), 'fit', w, '%s: %s, which is %s, fits its type' % (e.name, d.params[j].name, show(C.val[j])))
        if e.name.endswith('_set_bufs'):
            kept(R, m, f, e, ends, w)
    for b, i, sl, s, n in m.derefs:
        w = B.where(m, f.name, n)
        good = False
        for e in events:
            if e.name in OUT and len(e.args) > max(OUT[e.name]) and pyflow.base(e.args[OUT[e.name][0]]) == b:
                c = pyflow.base(e.args[OUT[e.name][1]])
                v = num(unwrap(m.attr(c, 'value', s, None)))
                i2 = None if i == NONE else num(unwrap(i))
                good = good or i2 is not None and s.holds(Ge(v - i2 - (0 if sl else 1))) is True
        R.ok(good, 'result', w, 'memory given by native code is read within its length')


def kept(R, m, f, e, ends, w):
    for s, v, node in ends:
        have = parts(v)
        for i, a in enumerate(e.args):
            b = unwrap(a)
            while isinstance(b, tuple) and b[0] == 'byref':
                b = b[1]
            if isinstance(b, Poly):
                continue
            if b[0] == 'mem':
                for x in b[1].atoms():
                    if x[0] == 'addr':
                        R.ok(x[1] in have, 'kept', w, '%s: the memory of the state is kept with it' % f.name)
            elif b[0] in ('buf', 'arr', 'join', 'bytesof', 'raw', 'cat'):
                R.ok(b in have, 'kept', w, '%s: what is passed as argument %d of %s is kept with the state' % (f.name, i, e.name))


def natives(R, B):
    mod = B.mod
    for name in NATIVE:
        d = B.protos.get(name)
        if d is None or name not in mod.fns:
            R.broken('%s is gone' % name)
            continue
        fn = Fn(mod, name)
        val = {}
        for i, p in enumerate(d.params):
            if not p.ptr:
                val[i] = fn.arg(i)

        class E:
            pass
        e = E()
        e.name, e.args, e.state = name, [], None
        C = Call.__new__(Call)
        C.B, C.m, C.e, C.d, C.s, C.val, C.fits = B, None, e, d, None, val, {}
        need = {i: n for i, n, _, _ in C.needs() if not any(a[0] == 'unknown' for a in n.atoms())}
        init = State()
        for c in domain(name, val):
            init = flow.assume(init, c) or init
        F = Facts(fn, init=init)
        count = next((val[i] for i, p in enumerate(d.params) if not p.ptr and p.name.endswith('len')), None)
        small = contents(fn, F, count) if count is not None else set()
        for A in p13.accesses(fn):
            bs, off = fn.base(A.addr)
            if bs is None:
                continue
            i = next((i for i in need if poly(bs) == fn.arg(i)), None)
            if i is None or A.size is None:
                continue
            w = fn.where(A.ins)
            for st in F.states_before(A.ins):
                st = State(st.facts | lemmas(fn, st, off, small, count), st.must, st.may)
                if not R.ok(p13.fits(st, need[i], off, A.size), 'native', w, '%s: %s %s bytes at offset %s of %s, which has %s' % (
                        name, 'writes' if A.write else 'reads', show(A.size), show(off), d.params[i].name, show(need[i]))):
                    break


def contents(fn, F, count):
    """local arrays all of whose elements are below the count"""
    stores = {}
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op in ('store', 'call'):
                for w in fn.writes_of(ins):
                    if w[1] is not None and w[1][0] == 'alloca':
                        stores.setdefault(w[1], []).append((ins, w))
    good = set()
    for a, ws in stores.items():
        for ins, w in ws:
            if ins.op != 'store':
                break
            v = fn.val(ins.ops[0], ins.extra['ty'])
            x = v.single()
            if x and x[0] == 'ld' and fn.base(x[1])[0] == a and x[2] * 8 == ins.extra['ty'][1]:
                continue
            if not all(prove(st.facts | lemmas(fn, st, v, (), count), count - v - 1) for st in F.states_before(ins)):
                break
        else:
            good.add(a)
    return good


def lemmas(fn, st, p, small, count):
    """cutting a number short makes it no larger; elements of small arrays are below the count"""
    out = set()
    seen = set(all_atoms(p))
    for f in st.facts:
        seen |= set(all_atoms(f))
    for a in seen:
        if a[0] == 'trunc' and prange(a[2])[0] >= 0:
            out.add((('ge', a[2] - poly(a)), True))
        elif a[0] == 'ld' and fn.base(a[1])[0] in small:
            out.add((('ge', count - poly(a) - 1), True))
    return out


def domain(name, val):
    """what callers establish about counts (P22)"""
    if name == 'toprf_create_shares':
        return [Ge(val[1] - val[2]), Ge(val[2] - 2)]
    if name in ('dkg_start', 'dkg_verify_commitments'):
        return [Ge(val[0] - val[1]), Ge(val[1] - 2)]
    return []
