"""Value numbering and must-fact dataflow over normalised IR.

Fn      : one function (optionally specialised by constants in memory at entry): pruned CFG,
          dominators, natural loops, induction variables, symbolic values, memory definitions.
facts() : forward "must" dataflow.  At every program point the set of comparisons that hold on
          every path reaching it.  States are kept apart by the values of small control phis
          (return codes and the like), as in property simulation; everything else is met.
"""
import itertools
import re
from collections import deque
import sym
from sym import *
from build import Broken
from ir import constbytes

A = lambda i, m=1: ('argsize', i, m)

# bytes written by library functions: callee -> [(pointer argument, size)]
EFFECTS = {
    'memcpy': [(0, A(2))], 'memmove': [(0, A(2))], 'memset': [(0, A(2))],
    'sodium_memzero': [(0, A(1))], 'sodium_mlock': [], 'sodium_munlock': [(0, A(1))],
    'sodium_memcmp': [], 'memcmp': [], 'strncmp': [], 'strcmp': [], 'strlen': [], 'crypto_verify_32': [], 'sodium_is_zero': [],
    'crypto_core_ristretto255_scalar_random': [(0, 32)],
    'crypto_core_ristretto255_scalar_mul': [(0, 32)], 'crypto_core_ristretto255_scalar_add': [(0, 32)],
    'crypto_core_ristretto255_scalar_sub': [(0, 32)], 'crypto_core_ristretto255_scalar_invert': [(0, 32)],
    'crypto_core_ristretto255_scalar_negate': [(0, 32)], 'crypto_core_ristretto255_scalar_complement': [(0, 32)],
    'crypto_core_ristretto255_scalar_reduce': [(0, 32)],
    'crypto_core_ristretto255_random': [(0, 32)],
    'crypto_scalarmult_ristretto255': [(0, 32)], 'crypto_scalarmult_ristretto255_base': [(0, 32)],
    'crypto_core_ristretto255_add': [(0, 32)], 'crypto_core_ristretto255_sub': [(0, 32)],
    'crypto_core_ristretto255_from_hash': [(0, 32)], 'crypto_core_ristretto255_is_valid_point': [],
    'crypto_hash_sha512_init': [(0, 208)], 'crypto_hash_sha512_update': [(0, 208)],
    'crypto_hash_sha512_final': [(0, 208), (1, 64)], 'crypto_hash_sha512': [(0, 64)],
    'crypto_generichash_init': [(0, 384)], 'crypto_generichash_update': [(0, 384)],
    'crypto_generichash_final': [(0, 384), (1, A(2))], 'crypto_generichash': [(0, A(1))],
    'randombytes_buf': [(0, A(1))], 'randombytes': [(0, A(1))], 'randombytes_random': [], 'randombytes_uniform': [],
    'crypto_sign_keypair': [(0, 32), (1, 64)], 'crypto_sign_detached': [(0, 64), (1, 8)],
    'crypto_sign_seed_keypair': [(0, 32), (1, 64)],
    'crypto_sign_verify_detached': [], 'crypto_auth': [(0, 32)], 'crypto_auth_verify': [],
    'crypto_scalarmult_base': [(0, 32)], 'crypto_scalarmult': [(0, 32)],
    'time': [(0, 8)], 'fprintf': [], 'vfprintf': [], 'printf': [], 'fputs': [], 'fputc': [], 'fwrite': [], 'puts': [],
    'putc': [], 'putchar': [], 'fflush': [],
    'snprintf': [(0, A(1))], 'free': [], 'malloc': [], 'calloc': [], 'exit': [], 'abort': [], 'ntohl': [], 'htonl': [],
    'ntohs': [], 'htons': [],
    'Noise_XK_session_free': [], 'Noise_XK_device_free': [], 'Noise_XK_device_create': [],
    'Noise_XK_device_add_peer': [], 'Noise_XK_peer_get_id': [], 'Noise_XK_session_get_peer_id': [],
    'Noise_XK_device_lookup_peer_by_id': [], 'Noise_XK_peer_get_info': [(0, 8)],
    'Noise_XK_session_create_initiator': [], 'Noise_XK_session_create_responder': [],
    'Noise_XK_pack_message_with_conf_level': [], 'Noise_XK_encap_message_p_free': [],
    'Noise_XK_session_write': [(2, 4), (3, 8)], 'Noise_XK_session_read': [(0, 8)],
    'Noise_XK_rcode_is_success': [], 'Noise_XK_rcode_is_error': [], 'Noise_XK_unpack_message_with_auth_level': [(0, 4), (1, 8)],
    'Noise_XK_aead_decrypt': [(5, A(4))], 'Noise_XK_aead_encrypt': [(6, None)],
    'crypto_aead_chacha20poly1305_ietf_decrypt': [(0, None), (1, 8)],
    'crypto_aead_chacha20poly1305_ietf_encrypt': [(0, None), (1, 8)],
}

# calls whose result is a function of their arguments and of memory reached through them
PURE = {'sodium_memcmp', 'memcmp', 'crypto_sign_verify_detached', 'crypto_auth_verify',
        'crypto_core_ristretto255_is_valid_point', 'Noise_XK_rcode_is_success', 'Noise_XK_rcode_is_error', 'strlen', 'strcmp', 'strncmp',
        'crypto_verify_32', 'sodium_is_zero'}
# equality tests: F(...) == 0 means equal/valid
MEMCMP = {'sodium_memcmp', 'memcmp', 'crypto_verify_32', 'bcmp'}


def width(ty):
    return ty[1] if ty[0] == 'i' else 64


def mentions(v, atom):
    if isinstance(v, list):
        return any(mentions(x, atom) for w in v for x in w if isinstance(x, (Poly, tuple)))
    if isinstance(v, (Poly, tuple)):
        return atom in all_atoms(v)
    return False


EXACT = False           # let counters reach the last value of their type


class Fn:
    def __init__(self, mod, name, entry_cells=(), argnames=None, effects=None):
        if name not in mod.fns:
            raise Broken('function %s is not defined in the analysed sources' % name)
        self.mod = mod
        self.f = mod.fns[name]
        self.name = name
        self.eff = effects or EFFECTS
        self.unknown = set()
        self.entry_cells = {}
        self.argval = {}
        for i, (ty, nm, byval) in enumerate(self.f.params):
            an = argnames[i] if argnames and i < len(argnames) else self.argname(i)
            self.argval[nm] = poly(('arg', i, an, width(ty) if ty[0] == 'i' else 0))
        self.names = {an[2]: an for an in (v.single() for v in self.argval.values())}
        for (ai, off, size), c in dict(entry_cells).items():
            self.entry_cells[(self.arg(ai) + off, size)] = poly(c)
        self.alive = set(self.f.blocks)
        self.dead_edges = set()
        self._summaries()
        for _ in range(6):
            self._reset()
            if not self._prune():
                break
        self._reset()

    def argname(self, i):
        return 'arg%d' % i

    def arg(self, i):
        return self.argval[self.f.params[i][1]]

    # ------------------------------------------------------------ summaries of functions kept as calls
    def _summaries(self):
        self.logonly = set()
        for g in self.mod.fns.values():
            ok = True
            for ins in g.instrs():
                if ins.op == 'store':
                    # stores only to own allocas
                    v = ins.ops[1]
                    while v[0] == 'loc' and v[1] in g.defs and g.defs[v[1]].op == 'gep':
                        v = g.defs[v[1]].ops[0]
                    if not (v[0] == 'loc' and v[1] in g.defs and g.defs[v[1]].op == 'alloca'):
                        ok = False
                elif ins.op == 'call':
                    c = ins.callee
                    if c is None or not (c.startswith('llvm.va') or c in ('fprintf', 'vfprintf', 'printf', 'fputs', 'fputc', 'fwrite', 'putc', 'puts', 'putchar', 'fflush') or c.startswith('llvm.stack')):
                        ok = False
            if ok:
                self.logonly.add(g.name)

    # ------------------------------------------------------------ CFG
    def succ(self, b):
        return [s for s in b.succ if (b.name, s.name) not in self.dead_edges]

    def pred(self, b):
        return [p for p in b.pred if p.name in self.alive and (p.name, b.name) not in self.dead_edges]

    def _reset(self):
        self.memo = {}
        self.cmemo = {}
        self._writes = None
        self._ldmemo = {}
        self._wmemo = {}
        self._open = {}
        self._gates = None
        self._reach()
        self._doms()
        self._loops()
        self._ivs()
        self._kranges()
        self.memo, self.cmemo, self._ldmemo, self._wmemo, self._writes, self._gates = {}, {}, {}, {}, None, {}
        for b in self.rpo:              # the first of several congruent merges stands for all
            if b.name in self.loops:
                continue
            for i in b.instrs:
                if i.op != 'phi':
                    break
                if i.ty[0] == 'i' and i.ty[1] >= 32:
                    self.val(('loc', i.name), i.ty)

    def _kranges(self):
        """bound loop counters by guards every iteration passes (induction from 0 in steps of 1)"""
        changed = False
        for h in sorted(self.loops, key=lambda h: self.rpoi[h]):
            loop = self.loops[h]
            k = self.ivinfo[h]['k']
            lats = [b for b, hh in self.backedges if hh == h]
            best = None
            for bn in loop:
                b = self.f.blocks[bn]
                if not all(self.dominates(bn, l) for l in lats):
                    continue
                for s in self.succ(b):
                    if s.name not in loop or not any(x.name not in loop for x in self.succ(b)):
                        continue
                    if self._reaches_latch_otherwise(b, s, loop, lats):
                        continue
                    for (l, pol) in literals(self.edge_cond(b, s)):
                        m = self._kbound(l, pol, k)
                        if m is not None and (best is None or m < best):
                            best = m
            if best is not None and best < 2 ** (k[1] - 1):
                sym.RANGES[k] = (0, best)
                for nm in self.ivinfo[h]['phis']:
                    c = ('cnt', k, self.name, nm)
                    if c in sym.RANGES:
                        sym.RANGES[c] = (0, best)
                changed = True
        if changed:
            self.iv = {n: Poly(dict(p.t)) for n, p in self.iv.items()}
            self.memo, self.cmemo, self._ldmemo, self._wmemo, self._writes, self._gates = {}, {}, {}, {}, None, None

    def _reaches_latch_otherwise(self, b, s, loop, lats):
        others = [x for x in self.succ(b) if x.name != s.name and x.name in loop]
        return bool(others)

    def _kbound(self, l, pol, k):
        """largest value of the counter at the loop header if this literal holds on every back edge"""
        if l[0] == 'eq' and not pol:
            for e in (l[1], -l[1]):
                if e.coef(k) == 1:
                    B = poly(k) - e
                    r = prange(B)
                    if k not in all_atoms(B) and r[0] >= 0 and r[1] != INF and not any(self.variant_in(B, h) for h in (k[3],)):
                        return r[1]
            return None
        if l[0] == 'ge' and pol:
            a, b = ZERO, l[1] + 1
            c = l[1].coef(k)
            if c == -1:
                r = prange(l[1] + poly(k))
                return r[1] + 1 if r[1] != INF and r[0] > -INF else None
            return None
        if l[0] in ('slt', 'ult') and pol:
            p, q = l[1], l[2]
        elif l[0] in ('slt', 'ult'):
            p, q = l[2], l[1] + 1
        else:
            return None
        if l[0] == 'slt' and (p.const() or 0) >= 0 and p.const() is not None and q.coef(k) == -1:
            # counting down: B - k > c, so k stays below B - c
            B = q + poly(k)
            r = prange(B)
            if k in all_atoms(B) or self.variant_in(B, k[3]) or r[0] < -2 ** 31 or r[1] >= 2 ** 31:
                return None
            return max(r[1] - p.const(), 0)
        d = (p - poly(k)).const()
        if d is None or d < 0 or k in all_atoms(q):
            return None
        r = prange(q)
        if r[1] == INF or (r[0] < 0 if l[0] == 'ult' else r[0] < -2 ** 31 or r[1] >= 2 ** 31):
            return None
        return max(r[1] - d, 0)

    def _reach(self):
        seen = set()
        st = [self.f.entry]
        while st:
            b = st.pop()
            if b.name in seen:
                continue
            seen.add(b.name)
            st.extend(self.succ(b))
        self.alive = seen
        # reverse postorder
        order, mark = [], set()

        def dfs(root):
            stack = [(root, iter(self.succ(root)))]
            mark.add(root.name)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s.name not in mark:
                        mark.add(s.name)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
        dfs(self.f.entry)
        self.rpo = order[::-1]
        self.rpoi = {b.name: i for i, b in enumerate(self.rpo)}

    def _doms(self):
        idom = {self.f.entry.name: self.f.entry.name}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p.name for p in self.pred(b) if p.name in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while self.rpoi[x] > self.rpoi[y]:
                            x = idom[x]
                        while self.rpoi[y] > self.rpoi[x]:
                            y = idom[y]
                    n = x
                if idom.get(b.name) != n:
                    idom[b.name] = n
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def idominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.block is j.block:
            return i.idx < j.idx
        return self.dominates(i.block.name, j.block.name)

    def _loops(self):
        self.loops = {}          # header -> set(blocks)
        self.backedges = set()
        for b in self.rpo:
            for s in self.succ(b):
                if self.dominates(s.name, b.name):
                    self.backedges.add((b.name, s.name))
                    body = self.loops.setdefault(s.name, {s.name})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x.name in body:
                            continue
                        body.add(x.name)
                        st.extend(self.pred(x))
        self.loopsof = {}        # block -> headers of loops containing it, outermost first
        for b in self.alive:
            hs = [h for h, body in self.loops.items() if b in body]
            hs.sort(key=lambda h: -len(self.loops[h]))
            self.loopsof[b] = hs

    # ------------------------------------------------------------ induction variables
    def _delta(self, v, phi, loop, seen):
        """set of constant/invariant increments of v relative to phi, or None"""
        if v == ('loc', phi.name):
            return {ZERO}
        if v[0] != 'loc':
            return None
        d = self.f.defs.get(v[1])
        if d is None or d.block.name not in loop or v[1] in seen:
            return None
        seen = seen | {v[1]}
        if d.op in ('add', 'sub'):
            for x, y in ((0, 1), (1, 0)):
                if d.op == 'sub' and x == 1:
                    continue
                r = self._delta(d.ops[x], phi, loop, seen)
                if r is not None:
                    o = self._inv(d.ops[y], d.ty, loop)
                    if o is None:
                        return None
                    return {q + o if d.op == 'add' else q - o for q in r}
            return None
        if d.op == 'gep':
            r = self._delta(d.ops[0], phi, loop, seen)
            if r is None:
                return None
            off = self._gepoff(d, loop)
            return None if off is None else {q + off for q in r}
        if d.op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            return self._delta(d.ops[0], phi, loop, seen)
        if d.op == 'select':
            out = set()
            for o in d.ops[1:]:
                r = self._delta(o, phi, loop, seen)
                if r is None:
                    return None
                out |= r
            return out
        if d.op == 'phi' and d.block.name != phi.block.name:
            if d.block.name in self.loops:
                # an inner loop header: accept if it carries the value unchanged or counts
                pass
            out = set()
            for o, bn in zip(d.ops, d.extra['blocks']):
                if bn not in self.alive or (bn, d.block.name) in self.dead_edges:
                    continue
                if o == v:
                    continue
                r = self._delta(o, phi, loop, seen)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def _inv(self, v, ty, loop):
        """value of a loop-invariant operand (constants and values defined outside the loop, or loads in it that are invariant)"""
        if v[0] == 'c':
            return poly(self._cint(v[1], ty))
        try:
            p = self.val(v, ty)
        except RecursionError:
            return None
        return p

    def _gepoff(self, d, loop):
        off = ZERO
        T = self.mod.types
        t = d.extra['ety']
        for n, (o, oty) in enumerate(zip(d.ops[1:], d.extra['tys'][1:])):
            if n == 0:
                sz = T.size(t)
                i = self._inv(o, oty, loop)
                if i is None:
                    return None
                off = off + i * sz
            else:
                t = T.resolve(t)
                if t[0] == 'struct':
                    off = off + T.layout(t)[0][o[1]]
                    t = t[1][o[1]]
                else:
                    t = t[2]
                    i = self._inv(o, oty, loop)
                    if i is None:
                        return None
                    off = off + i * T.size(t)
        return off

    def _ivs(self):
        self.iv = {}         # phi name -> Poly
        self.ivinfo = {}     # header -> {'k': atom, 'phis': {name: (init, step)}}
        heads = sorted(self.loops, key=lambda h: self.rpoi[h])
        for h in heads:
            b = self.f.blocks[h]
            loop = self.loops[h]
            cand = []
            for ins in b.instrs:
                if ins.op != 'phi':
                    break
                if ins.ty[0] not in ('i', 'ptr') or ins.ty == ('i', 1):
                    continue
                outs = [(v, bn) for v, bn in zip(ins.ops, ins.extra['blocks']) if bn in self.alive and (bn, h) not in self.dead_edges]
                ini = [v for v, bn in outs if bn not in loop]
                lat = [v for v, bn in outs if bn in loop]
                if len(ini) != 1 or not lat:
                    continue
                self.memo[ins.name] = poly(('phi', self.name, ins.name, None))
                ds = set()
                ok = True
                for v in lat:
                    r = self._delta(v, ins, loop, frozenset())
                    if r is None:
                        ok = False
                        break
                    ds |= r
                self.memo.pop(ins.name, None)
                if ok:
                    if ins.ty[0] == 'i':         # steps are signed
                        ds = {d if d.const() is None or 2 * d.const() < 2 ** ins.ty[1] else d - 2 ** ins.ty[1] for d in ds}
                    cand.append((ins, ini[0], ds))
            w = 64
            for ins, ini, ds in cand:
                if ins.ty[0] == 'i' and len(ds) == 1 and next(iter(ds)).const() in (1, -1):
                    w = min(w, ins.ty[1])
            k = ('k', w, self.name, h)
            info = {'k': k, 'phis': {}, 'cand': cand}
            self.ivinfo[h] = info
            self.memo = {}
            # counters do not wrap (P19 decides that); in a session they stay below 2^w - 1 as groups have at most 128 peers
            for ins, ini, ds in cand if EXACT else ():
                if ins.ty == ('i', w) and len(ds) == 1 and next(iter(ds)).const() == 1 and w < 64:
                    c = self.val(ini, ins.ty).const()
                    if c is not None and 0 <= c < 2 ** (w - 1):
                        sym.RANGES[k] = (0, min(sym.RANGES.get(k, (0, 2 ** w))[1], 2 ** w - 1 - c))
            for ins, ini, ds in cand:
                if any(self.variant_in(d, h) for d in ds):
                    continue
                i0 = self.val(ini, ins.ty)
                if len(ds) == 1:
                    step = next(iter(ds))
                    self.iv[ins.name] = i0 + step * poly(k)
                    info['phis'][ins.name] = (i0, step)
                else:
                    nz = [d for d in ds if d != ZERO]
                    if len(nz) == 1 and ZERO in ds:
                        self.iv[ins.name] = i0 + nz[0] * poly(('cnt', k, self.name, ins.name))
                        sym.RANGES[('cnt', k, self.name, ins.name)] = (0, 2 ** w - 2)
                        info['phis'][ins.name] = (i0, ('cond', nz[0]))
            self.memo = {}

    # ------------------------------------------------------------ loop variance
    def defblock(self, a):
        k = a[0]
        if k == 'k':
            return a[3]
        if k == 'cnt':
            return a[1][3] if a[1].__class__ is tuple else a[1].single()[-1]
        if k == 'phi':
            d = self.f.defs.get(a[2])
            return d.block.name if d else None
        if k == 'call':
            return a[2][1]
        if k == 'fn':
            return a[3][1] if len(a) > 3 and a[3][0] != 'defs' else None
        if k == 'alloca':
            d = self.f.defs.get(a[2])
            return d.block.name if d is not None and d.ops[0][0] != 'c' else None
        return None

    def variant_in(self, x, h):
        loop = self.loops[h]
        for a in all_atoms(x):
            b = self.defblock(a)
            if b is not None and b in loop:
                return True
            if a[0] == 'ld' and len(a) > 3 and a[3] is not None:
                for u in a[3]:
                    if u != 'entry' and u[1] in loop:
                        return True
            elif a[0] == 'fn' and len(a) > 3 and a[3][0] == 'defs':
                for u in a[3][1]:
                    if u != 'entry' and u[1] in loop:
                        return True
        return False

    # ------------------------------------------------------------ values
    def _cint(self, n, ty):
        if ty and ty[0] == 'i' and ty[1] in (8, 16):
            return n % (2 ** ty[1])
        if ty and ty[0] == 'i' and ty[1] == 1:
            return n & 1
        return n

    def val(self, v, ty=None):
        k = v[0]
        if k == 'c':
            return poly(self._cint(v[1], ty))
        if k in ('null', 'zero'):
            return ZERO
        if k == 'undef':
            return poly(('undef',))
        if k == 'glob':
            return poly(('glob', v[1]))
        if k == 'cgep':
            base = self.val(v[2][0][1])
            T = self.mod.types
            t = v[1]
            off = 0
            for n, (oty, o) in enumerate(v[2][1:]):
                if n == 0:
                    off += o[1] * T.size(t)
                else:
                    t = T.resolve(t)
                    if t[0] == 'struct':
                        off += T.layout(t)[0][o[1]]
                        t = t[1][o[1]]
                    else:
                        t = t[2]
                        off += o[1] * T.size(t)
            return base + off
        if k == 'ccast':
            return self.val(v[3], v[2])
        if k != 'loc':
            return poly(('opaque', repr(v)))
        nm = v[1]
        if nm in self.argval:
            return self.argval[nm]
        r = self.memo.get(nm)
        if r is not None:
            return r
        d = self.f.defs.get(nm)
        if d is None:
            raise Broken('undefined value %s in %s' % (nm, self.name))
        # break cycles through non-affine phis
        if d.op == 'phi' and nm not in self.iv:
            self.memo[nm] = self._phiatom(d)
        r = self._val(d)
        self.memo[nm] = r
        return r

    def _congruent(self, d):
        """an earlier merge that selects the same values under the same conditions"""
        if self._gates is None:
            return None
        budget = [40]
        h = self.idom.get(d.block.name)
        if h is None or h == d.block.name:
            return None
        mine = self.loopsof.get(d.block.name, ())
        if set(self.loopsof.get(h, ())) != set(mine):
            return None
        vals = {b: v for v, b in zip(d.ops, d.extra['blocks'])}

        def walk(b):
            budget[0] -= 1
            if budget[0] < 0 or b.name in self.loops and b.name != h:
                return None
            ss = self.succ(b)
            if not ss:
                return ('end',)
            outs = []
            for s in ss:
                if s.name == d.block.name:
                    t = ('v', self.val(vals[b.name], d.ty))
                else:
                    t = walk(s)
                if t is None:
                    return None
                outs.append((self.edge_cond(b, s), t))
            if len(outs) == 1:
                return outs[0][1]
            if all(t == outs[0][1] for _, t in outs):
                return outs[0][1]
            return tuple(outs)
        t = walk(self.f.blocks[h])
        if t is None:
            return None
        for nm, lp in self._gates.setdefault((t, d.ty), []):
            if lp <= set(mine) and nm != d.name:
                return self._phiatom(self.f.defs[nm])
        self._gates[(t, d.ty)].append((d.name, set(mine)))
        return None

    def _phiatom(self, d):
        if d.ty[0] == 'i' and d.ty[1] == 1:
            return poly(('b2i', ('lit', ('bool', ('phi', self.name, d.name, None)), True)))
        rng = None
        if d.ty[0] == 'i':
            cs = [v for v, b in zip(d.ops, d.extra['blocks']) if b in self.alive and (b, d.block.name) not in self.dead_edges]
            if all(v[0] in ('c', 'undef') for v in cs):
                xs = [self._cint(v[1], d.ty) for v in cs if v[0] == 'c']
                rng = (min(xs), max(xs)) if xs else None
            elif self.truth(d, set()):
                rng = (0, 1)
            elif d.ty[1] in (8, 16):
                rng = (0, 2 ** d.ty[1] - 1)
        return poly(('phi', self.name, d.name, rng))

    def truth(self, d, seen):
        """d only merges truth values"""
        if d.name in seen:
            return True
        seen.add(d.name)
        if d.op == 'zext':
            return d.extra['from'] == ('i', 1)
        if d.op != 'phi':
            return False
        for v, b in zip(d.ops, d.extra['blocks']):
            if b not in self.alive or (b, d.block.name) in self.dead_edges or v[0] == 'undef':
                continue
            if v[0] == 'c':
                if v[1] not in (0, 1):
                    return False
                continue
            e = self.f.defs.get(v[1]) if v[0] == 'loc' else None
            if e is None or not self.truth(e, seen):
                return False
        return True

    def _val(self, d):
        op = d.op
        if op == 'phi':
            if d.name in self.iv:
                return self.iv[d.name]
            inc = [(v, b) for v, b in zip(d.ops, d.extra['blocks'])
                   if b in self.alive and (b, d.block.name) not in self.dead_edges]
            vs = []
            for v, b in inc:
                if v == ('loc', d.name):
                    continue
                if v[0] == 'undef':
                    continue
                vs.append(v)
            if len(set(vs)) == 1 and len(inc) == 1:
                return self.val(vs[0], d.ty)
            if vs and d.block.name not in self.loops:
                ps = {self.val(v, d.ty) for v in vs}
                if len(ps) == 1 and len(vs) == len(inc):
                    return next(iter(ps))
                if d.ty[0] == 'i' and d.ty[1] >= 32 and any(v[0] != 'c' for v in vs) and len(vs) == len(inc):
                    c = self._congruent(d)
                    if c is not None:
                        return c
            return self._phiatom(d)
        if op in ('add', 'sub', 'mul'):
            a, b = self.val(d.ops[0], d.ty), self.val(d.ops[1], d.ty)
            return self._be64(a + b) if op == 'add' else a - b if op == 'sub' else a * b
        if op == 'shl':
            c = self.val(d.ops[1], d.ty).const()
            if c is not None and c < 64:
                return self.val(d.ops[0], d.ty) * (2 ** c)
        if op in ('and', 'or', 'xor') and d.ty == ('i', 1):
            a, b = self.cond(d.ops[0]), self.cond(d.ops[1])
            if op == 'and':
                return self._b2i(And(a, b))
            if op == 'or':
                return self._b2i(Or(a, b))
            return self._b2i(Or(And(a, Not(b)), And(Not(a), b)))
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(d.ops[0], d.ty), self.val(d.ops[1], d.ty)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and ca >= 0 and cb >= 0:
                try:
                    return poly({'and': lambda: ca & cb, 'or': lambda: ca | cb, 'xor': lambda: ca ^ cb,
                                 'shl': lambda: ca << cb, 'lshr': lambda: ca >> cb, 'ashr': lambda: ca >> cb,
                                 'udiv': lambda: ca // cb, 'sdiv': lambda: ca // cb, 'urem': lambda: ca % cb,
                                 'srem': lambda: ca % cb}[op]())
                except ZeroDivisionError:
                    pass
            if op == 'and':
                for x, c in ((a, cb), (b, ca)):
                    if c is not None and c >= 0 and (c & (c + 1)) == 0:
                        r = prange(x)
                        if r[0] >= 0 and r[1] <= c:
                            return x
            if op in ('lshr', 'udiv') and cb is not None:
                # exact division of a multiple
                q = 2 ** cb if op == 'lshr' else cb
                if q and all(c % q == 0 for m, c in a.t) and prange(a)[0] >= 0:
                    return Poly({m: c // q for m, c in a.t})
            if op in ('or', 'xor'):
                # no common bits: a sum
                for x, y in ((a, b), (b, a)):
                    r = prange(y)
                    if r[0] >= 0 and r[1] != INF and prange(x)[0] >= 0:
                        q = 1 << int(r[1]).bit_length()
                        if all(c % q == 0 for m, c in x.t):
                            return self._be64(x + y)
            args = (a, b)
            if op in ('and', 'or', 'xor'):
                args = tuple(sorted(args, key=lambda p: repr(p.t)))
            return poly(('op', op) + args)
        if op == 'zext':
            if d.extra['from'] == ('i', 1):
                return self._b2i(self.cond(d.ops[0]))
            a = self.val(d.ops[0], d.extra['from'])
            w = width(d.extra['from'])
            r = prange(a)
            if r[0] >= 0 and r[1] < 2 ** w:
                return a
            c = a.const()
            if c is not None:
                return poly(c % 2 ** w)
            s = a.single()
            if s and s[0] in ('call', 'phi', 'arg'):
                return a
            return poly(('zext', w, a))
        if op == 'sext':
            if d.extra['from'] == ('i', 1):
                return -self._b2i(self.cond(d.ops[0]))
            a = self.val(d.ops[0], d.extra['from'])
            w = width(d.extra['from'])
            r = prange(a)
            if r[1] >= 2 ** (w - 1) and (w < 32 or w == 32 and a.single() and a.single()[0] in ('ld', 'op')):
                c = a.const()
                if c is not None:
                    return poly((c + 2 ** (w - 1)) % 2 ** w - 2 ** (w - 1))
                return poly(('sext', w, a))
            return a
        if op == 'trunc':
            a = self.val(d.ops[0], d.extra['from'])
            w = width(d.ty)
            if w == 1:
                return self._b2i(self.cond(('loc', d.name)))
            r = prange(a)
            if r[0] >= 0 and r[1] < 2 ** w:
                return a
            c = a.const()
            if c is not None:
                return poly(c % 2 ** w)
            s = a.single()
            if s and s[0] == 'zext' and s[1] <= w:
                return poly(s[2])
            if r[0] < 0 and w == 32 and r[1] < 2 ** 31:
                return a
            return poly(('trunc', w, a))
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return self.val(d.ops[0], d.extra['from'])
        if op == 'icmp':
            return self._b2i(self.cond(('loc', d.name)))
        if op == 'select':
            if d.ty == ('i', 1):
                return self._b2i(self.cond(('loc', d.name)))
            c = self.cond(d.ops[0])
            a, b = self.val(d.ops[1], d.ty), self.val(d.ops[2], d.ty)
            if c is True or a == b:
                return a
            if c is False:
                return b
            if a.const() == 1 and b.const() == 0:
                return self._b2i(c)
            if a.const() == 0 and b.const() == 1:
                return self._b2i(Not(c))
            return poly(('ite', c, a, b))
        if op == 'gep':
            base = self.val(d.ops[0])
            T = self.mod.types
            t = d.extra['ety']
            off = ZERO
            for n, (o, oty) in enumerate(zip(d.ops[1:], d.extra['tys'][1:])):
                if n == 0:
                    off = off + self.val(o, ('i', 64)) * T.size(t)
                else:
                    t = T.resolve(t)
                    if t[0] == 'struct':
                        off = off + T.layout(t)[0][o[1]]
                        t = t[1][o[1]]
                    else:
                        t = t[2]
                        off = off + self.val(o, ('i', 64)) * T.size(t)
            return base + off
        if op == 'alloca':
            return poly(('alloca', self.name, d.name))
        if op == 'call':
            c = d.callee
            if c and c.startswith('llvm.bswap'):
                w = width(d.ty)
                a = self.val(d.ops[0], d.ty)
                return self.bswap(a, w)
            if c in ('ntohl', 'htonl') or c in ('ntohs', 'htons'):
                w = 32 if c.endswith('l') else 16
                return self.bswap(self.val(d.ops[0], ('i', w)), w)
            if c and re.match(r'llvm\.(umin|umax|smin|smax)', c):
                a, b = self.val(d.ops[0], d.ty), self.val(d.ops[1], d.ty)
                return poly(('op', c.split('.')[1], a, b))
            if c in ('memcpy', 'memmove', 'memset') or (c or '').startswith('llvm.stacksave'):
                if c in ('memcpy', 'memmove', 'memset'):
                    return self.val(d.ops[0])
            if c in PURE:
                args = tuple(self.val(o, t) for o, t in zip(d.ops, d.extra['argty']))
                if c in MEMCMP:
                    a, b = sorted(args[:2], key=lambda p: repr(p.t))
                    args = (a, b) + args[2:]
                if any(x[0] == 'alloca' for p in args for x in p.aset()):
                    # locals are reused for other contents: one value per content (or per call)
                    n = 32 if c == 'crypto_verify_32' else args[2].const() if c in MEMCMP and len(args) > 2 else None
                    if n and not any(self.variant_in(p, h) for h in self.loopsof.get(d.block.name, ())
                                     for p in args[:2] if any(x[0] == 'alloca' for x in p.aset())):
                        ids = set()
                        for p in args[:2]:
                            if any(x[0] == 'alloca' for x in p.aset()):
                                ids |= {'entry' if x == 'entry' else x[0].uid for x in self.defs_at(d, p, n)}
                        return poly(('fn', c, args, ('defs', frozenset(ids))))
                    return poly(('fn', c, args, d.uid))
                return poly(('fn', c, args))
            return poly(('call', c or '?', d.uid))
        if op == 'load':
            return self.load(d)
        if op == 'extractvalue':
            return poly(('op', 'ev', self.val(d.ops[0]), poly(d.extra['idx'][0])))
        if op == 'insertvalue':
            return poly(('op', 'iv', self.val(d.ops[0]), self.val(d.ops[1])) + tuple(poly(x) for x in d.extra['idx']))
        raise Broken('no value for ' + repr(d))

    def _be64(self, p):
        """bswap64 spelled as two 32-bit halves"""
        for m, c in p.t:
            if c == 2 ** 32 and len(m) == 1 and m[0][:3] == ('op', 'bswap', 32):
                lo = poly(m[0][3]).single()
                if lo and lo[0] == 'trunc' and lo[1] == 32:
                    x = lo[2]
                elif lo and lo[0] == 'op' and lo[1] == 'and' and poly(2 ** 32 - 1) in lo[2:]:
                    x = [y for y in lo[2:] if y != poly(2 ** 32 - 1)][0]
                else:
                    continue
                for hi in (poly(('op', 'lshr', x, poly(32))), poly(('trunc', 32, poly(('op', 'lshr', x, poly(32)))))):
                    h = ('op', 'bswap', 32, hi)
                    if p.coef(h) == 1:
                        return p - poly(m[0]) * 2 ** 32 - poly(h) + poly(('op', 'bswap', 64, x))
        return p

    def bswap(self, a, w):
        c = a.const()
        if c is not None:
            return poly(int.from_bytes((c % 2 ** w).to_bytes(w // 8, 'little'), 'big'))
        s = a.single()
        if s and s[0] == 'op' and s[1] == 'bswap' and s[2] == w:
            return poly(s[3])
        # ntohll spelled as two 32-bit halves
        return poly(('op', 'bswap', w, a))

    def _b2i(self, c):
        if c is True:
            return poly(1)
        if c is False:
            return ZERO
        if c[0] == 'lit' and c[1][0] == 'eq' and c[2] is False:
            a = c[1][1].single()
            if a and a[0] == 'phi' and a[3] == (0, 1):
                return poly(a)
        return poly(('b2i', c))

    def cond(self, v):
        if v[0] == 'c':
            return bool(v[1] & 1)
        if v[0] != 'loc':
            return ('lit', ('bool', ('opaque', repr(v))), True)
        r = self.cmemo.get(v[1])
        if r is None:
            r = self._cond(v)
            self.cmemo[v[1]] = r
        return r

    def _cond(self, v):
        d = self.f.defs.get(v[1])
        if d is None:
            return ('lit', ('bool', self.argval[v[1]].single()), True)
        if d.op == 'icmp':
            ty = d.extra['ty']
            a, b = self.val(d.ops[0], ty), self.val(d.ops[1], ty)
            w = width(ty)
            p = d.extra['pred']
            if p in ('eq', 'ne'):
                if ty[0] == 'i':
                    a, b = self._same(a, b, w), self._same(b, a, w)
                elif b.const() == 0 and any(i.op in ('store', 'load') and self.val(i.ops[-1]) == a for i in d.block.instrs[:d.idx]):
                    return p == 'ne'       # already accessed, so not null
                return Eq(a, b) if p == 'eq' else Not(Eq(a, b))
            if ty[0] == 'i' and ty[1] == 32 and p[0] == 's':
                # constants are signed already
                pass
            f = Ult if p[0] == 'u' else Slt
            if ty[0] == 'ptr':
                # ordered pointers belong to one object, whose addresses do not wrap
                ba, bb = self.base(a)[0], self.base(b)[0]
                if ba is not None and ba == bb:
                    f = lambda x, y, w: Ge(y - x - 1)
            elif p[0] == 'u':
                a, b = self._uns(a, w), self._uns(b, w)
            if p[1:] == 'lt':
                return f(a, b, w)
            if p[1:] == 'gt':
                return f(b, a, w)
            if p[1:] == 'ge':
                return Not(f(a, b, w))
            return Not(f(b, a, w))
        if d.op in ('and', 'or', 'xor') and d.ty == ('i', 1):
            a, b = self.cond(d.ops[0]), self.cond(d.ops[1])
            if d.op == 'and':
                return And(a, b)
            if d.op == 'or':
                return Or(a, b)
            return Or(And(a, Not(b)), And(Not(a), b))
        if d.op == 'select' and d.ty == ('i', 1):
            c, a, b = (self.cond(x) for x in d.ops)
            return Or(And(c, a), And(Not(c), b))
        if d.op == 'phi':
            p = self.val(v, d.ty)
            c = p.const()
            if c is not None:
                return bool(c)
            s = p.single()
            if s and s[0] == 'b2i':
                return s[1]
            return ('lit', ('bool', s), True)
        if d.op == 'freeze':
            return self.cond(d.ops[0])
        if d.op == 'trunc':
            a = self.val(d.ops[0], d.extra['from'])
            r = prange(a)
            if r[0] >= 0 and r[1] <= 1:
                return Not(Eq(a, 0))
            s = a.single()
            if s and s[0] in ('call', 'fn'):
                return Not(Eq(a, 0))
            return ('lit', ('bool', ('trunc1', a)), True)
        p = self.val(v, d.ty)
        c = p.const()
        if c is not None:
            return bool(c & 1)
        s = p.single()
        if s and s[0] in ('call', 'fn', 'ld', 'phi'):
            return Not(Eq(p, 0))
        return ('lit', ('bool', s if s else ('p', p)), True)

    def _same(self, a, b, w):
        """a, as the unsigned number when it is a negative constant and b is
        known to be one that reaches it"""
        c = a.const()
        if c is not None and c < 0:
            r = prange(b)
            if r[0] >= 0 and r[1] >= c % 2 ** w:
                return poly(c % 2 ** w)
        return a

    def _uns(self, a, w):
        c = a.const()
        if c is not None and c < 0:
            return poly(c % 2 ** w)
        return a

    # ------------------------------------------------------------ memory
    def base(self, addr):
        """(base atom, offset) of an address"""
        cands = []
        for m, c in addr.t:
            if len(m) == 1 and c == 1 and self.isptr(m[0]):
                cands.append(m[0])
        if len(cands) == 1:
            return cands[0], addr - poly(cands[0])
        return None, addr

    def isptr(self, a):
        k = a[0]
        if k in ('alloca', 'glob'):
            return True
        if k == 'arg':
            return a[3] == 0
        if k == 'ld':
            return len(a) > 4 and a[4] or (a[2] == 'p')
        if k == 'call':
            d = self._callinstr(a)
            return d is not None and d.ty == ('ptr',)
        if k == 'phi':
            d = self.f.defs.get(a[2])
            return d is not None and d.ty == ('ptr',)
        if k == 'ite':
            return any(self.base(x)[0] is not None for x in a[2:])
        return False

    def _callinstr(self, a):
        u = a[2]
        b = self.f.blocks.get(u[1])
        return b.instrs[u[2]] if b else None

    def roots(self, v, seen=None):
        """syntactic roots of a pointer value: where it was obtained, before any memory reasoning"""
        if v[0] == 'glob' or v[0] == 'cgep':
            return {('glob',)}
        if v[0] != 'loc':
            return {('none',)}
        if v[1] in self.argval:
            return {('arg', v[1])}
        d = self.f.defs.get(v[1])
        if d is None:
            return {('none',)}
        if d.op in ('gep', 'bitcast', 'freeze', 'inttoptr'):
            return self.roots(d.ops[0], seen)
        if d.op in ('phi', 'select'):
            seen = seen or set()
            if v[1] in seen:
                return set()
            seen.add(v[1])
            out = set()
            for o in (d.ops[1:] if d.op == 'select' else d.ops):
                out |= self.roots(o, seen)
            return out
        if d.op == 'alloca':
            return {('alloca', v[1])}
        return {('mem',)}

    def atomroot(self, a):
        if a[0] == 'alloca':
            return ('alloca', a[2])
        if a[0] == 'arg':
            return ('arg', self.f.params[a[1]][1])
        if a[0] == 'glob':
            return ('glob',)
        return ('mem',)

    def baseroots(self, a):
        if a[0] == 'phi':
            return self.roots(('loc', a[2]))
        return {self.atomroot(a)}

    def within(self, addr, argi):
        """is the address derived from pointer argument argi only"""
        b = self.base(addr)[0]
        return b is not None and self.baseroots(b) == {('arg', self.f.params[argi][1])}

    def writes(self):
        """all writes: [(instr, base, addr, size or None, kind)]"""
        out = []
        for b in self.rpo:
            for ins in b.instrs:
                if ins.op in ('store', 'call'):
                    out += self.writes_of(ins)
        return out

    def _index_writes(self):
        self._writes = {}
        for b in self.rpo:
            for ins in b.instrs:
                rs = set()
                if ins.op == 'store':
                    rs = self.roots(ins.ops[1])
                elif ins.op == 'call':
                    c = ins.callee
                    if c is None:
                        continue
                    if c.startswith('llvm.mem'):
                        rs = self.roots(ins.ops[0])
                    elif c.startswith('llvm.') or c in self.logonly:
                        continue
                    elif c in self.eff:
                        for ai, _ in self.eff[c]:
                            if ai < len(ins.ops):
                                rs |= self.roots(ins.ops[ai])
                    else:
                        for o, t in zip(ins.ops, ins.extra['argty']):
                            if t == ('ptr',):
                                rs |= self.roots(o)
                for r in rs:
                    self._writes.setdefault(r, []).append(ins)

    def writes_of(self, ins):
        if self._writes is None:
            self._index_writes()
        r = self._wmemo.get(ins.uid)
        if r is None:
            r = self._wmemo[ins.uid] = self._writes_of(ins)
        return r

    def _writes_of(self, ins):
        out = []
        if ins.op == 'store':
            a = self.val(ins.ops[1])
            out.append((ins, self.base(a)[0], a, poly(self.mod.types.size(ins.extra['ty'])), 'store'))
        elif ins.op == 'call':
            c = ins.callee
            if c is None:
                self.unknown.add('indirect call')
                return out
            if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c.startswith('llvm.memset'):
                a = self.val(ins.ops[0])
                out.append((ins, self.base(a)[0], a, self.val(ins.ops[2], ('i', 64)), 'mem'))
            elif c.startswith('llvm.') or c in self.logonly:
                pass
            elif c in self.eff:
                for ai, sz in self.eff[c]:
                    if ai >= len(ins.ops):
                        continue
                    a = self.val(ins.ops[ai])
                    if a == ZERO:
                        continue
                    if sz is None:
                        s = None
                    elif isinstance(sz, int):
                        s = poly(sz)
                    else:
                        s = self.val(ins.ops[sz[1]], ins.extra['argty'][sz[1]]) * sz[2]
                    out.append((ins, self.base(a)[0], a, s, 'mem'))
            else:
                self.unknown.add(c)
                for o, t in zip(ins.ops, ins.extra['argty']):
                    if t == ('ptr',):
                        a = self.val(o)
                        bs, off = self.base(a)
                        if bs is not None and bs[0] != 'glob':
                            out.append((ins, bs, a, None, 'mem'))
        return out

    def disjoint(self, a, asz, w, wsz):
        d = a - w
        if wsz is None:
            return False
        asz = poly(asz)
        # a starts after w ends, or a ends before w starts
        if prange(d - wsz)[0] >= 0:
            return True
        if prange(-d - asz)[0] >= 0:
            return True
        return False

    def overlapping(self, addr, size):
        bs, _ = self.base(addr)
        if self._writes is None:
            self._index_writes()
        if bs is None:
            return []
        out = []
        if bs[0] == 'phi':
            rs = self.roots(('loc', bs[2]))
            done = set()
            for r in rs:
                for ins in self._writes.get(r, ()):
                    if ins.uid in done:
                        continue
                    done.add(ins.uid)
                    for w in self.writes_of(ins):
                        if w[1] is None or (w[1] == bs and not self.disjoint(addr, size, w[2], w[3])) \
                                or (w[1] != bs and rs & self.baseroots(w[1])):
                            out.append(w)
            return out
        for ins in self._writes.get(self.atomroot(bs), ()):
            for w in self.writes_of(ins):
                if (w[1] == bs or (w[1] is not None and w[1][0] == 'phi' and self.atomroot(bs) in self.roots(('loc', w[1][2])))) \
                        and not self.disjoint(addr, size, w[2], w[3]):
                    out.append(w)
        return out

    def load(self, ins):
        a = self.val(ins.ops[0])
        sz = self.mod.types.size(ins.ty)
        return self.load_at(ins, a, sz, ins.ty[0] == 'ptr')

    def load_at(self, ins, addr, size, isptr=False):
        key = (ins.block.name, ins.idx, addr, size)
        r = self._ldmemo.get(key)
        if r is not None:
            if key in self._open:
                self._open[key] = True
            return r
        ph = ('ld', addr, size, frozenset({('rec', ins.block.name, ins.idx)}), isptr)
        self._ldmemo[key] = poly(ph)
        self._open[key] = False
        marks = [(m, len(m)) for m in (self.memo, self.cmemo, self._ldmemo, self._wmemo)]
        r = self._load_at(ins, addr, size, isptr)
        self._ldmemo[key] = r
        if self._open.pop(key):
            # forget what was computed from the placeholder
            for m, n in marks:
                if m is self._wmemo or m is self.memo or m is self.cmemo or m is self._ldmemo:
                    for x in [x for x, v in itertools.islice(m.items(), min(n, len(m)), None) if mentions(v, ph)]:
                        del m[x]
        return r

    def _load_at(self, ins, addr, size, isptr):
        g = self._constglob(addr, size)
        if g is not None:
            return poly(g)
        defs = self.defs_at(ins, addr, size)
        if defs == {'entry'}:
            c = self.entry_cells.get((addr, size))
            if c is not None:
                return c
            return poly(('ld', addr, size, None, isptr))
        if not defs:
            return poly(('undef',))
        if len(defs) == 1:
            d, rel = next(iter(defs))
            if rel == 'must':
                if d.op == 'store':
                    v = self.val(d.ops[0], d.extra['ty'])
                    return v
                c = d.callee
                if 'memcpy' in c or 'memmove' in c:
                    dst, src = self.val(d.ops[0]), self.val(d.ops[1])
                    return self.load_at(d, src + (addr - dst), size, isptr)
                if 'memset' in c:
                    z = self.val(d.ops[1], ('i', 8)).const()
                    if z == 0:
                        return ZERO
                if c in ('sodium_memzero', 'sodium_munlock'):
                    return ZERO
        elif 'entry' not in defs and all(rel == 'must' and d.op == 'store' for d, rel in defs):
            vs = {self.val(d.ops[0], d.extra['ty']) for d, _ in defs}
            if len(vs) == 1:
                v = next(iter(vs))
                if not any(a[0] in ('k', 'cnt') for a in all_atoms(v)):
                    return v
        ids = frozenset('entry' if x == 'entry' else x[0].uid for x in defs)
        r = poly(('ld', addr, size, ids, isptr))
        if not isptr and 'entry' not in defs:
            self._memcount(ins, addr, size, defs, r)
        return r

    def _memcount(self, ins, addr, size, defs, r):
        """a counter kept in memory, set to a constant before a loop and raised by one at one place in it, is at
        most the number of started iterations"""
        inits, incs = [], []
        for d, rel in defs:
            if rel != 'must' or d.op != 'store':
                return
            c = self.val(d.ops[0], d.extra['ty']).const()
            (inits if c is not None else incs).append((d, c))
        if len(incs) != 1 or not inits:
            return
        d = incs[0][0]
        x = d.ops[0]
        if x[0] != 'loc':
            return
        a = self.f.defs.get(x[1])
        while a is not None and a.op in ('trunc', 'zext') and a.ops[0][0] == 'loc':
            a = self.f.defs.get(a.ops[0][1])
        if a is None or a.op != 'add' or ('c', 1) not in a.ops:
            return
        o = [y for y in a.ops if y != ('c', 1)]
        l = self.f.defs.get(o[0][1]) if o and o[0][0] == 'loc' else None
        while l is not None and l.op in ('trunc', 'zext') and l.ops[0][0] == 'loc':
            l = self.f.defs.get(l.ops[0][1])
        if l is None or l.op != 'load' or self.val(l.ops[0]) != addr:
            return
        hs = [h for h in self.loopsof.get(d.block.name, ()) if all(i.block.name not in self.loops[h] for i, _ in inits)]
        if len(hs) != 1 or len(self.loopsof.get(d.block.name, ())) != 1 or ins.block.name not in self.loops[hs[0]]:
            return
        k = self.ivinfo[hs[0]]['k']
        c0 = max(c for _, c in inits)
        before = self.idominates(ins, d) or ins is d
        sym.LEMMAS.setdefault(r.single(), set()).add(poly(k) + c0 + (0 if before else 1) - r)

    def _constglob(self, addr, size):
        bs, off = self.base(addr)
        if bs is None or bs[0] != 'glob':
            return None
        g = self.mod.globals.get(bs[1])
        o = off.const()
        if g and g['const'] and g['init'] and g['init'][0] == 'str' and o is not None and size <= 8:
            b = g['init'][1][o:o + size]
            if len(b) == size:
                return int.from_bytes(b, 'little')
        return None

    def globbytes(self, p):
        """contents of a constant global string at address p"""
        bs, off = self.base(p)
        if bs is None or bs[0] != 'glob':
            return None
        g = self.mod.globals.get(bs[1])
        o = off.const()
        if g and g['const'] and g['init'] and o is not None:
            b = constbytes(g['init'], g['ty'], self.mod.types)
            return b[o:] if b is not None else None
        return None

    def defs_at(self, ins, addr, size):
        """writes reaching instruction ins for [addr, addr+size): {'entry', (instr,'must'|'may')}"""
        cand = self.overlapping(addr, size)
        if not cand:
            return {'entry'}
        by = {}
        for w in cand:
            by.setdefault(w[0].block.name, {}).setdefault(w[0].idx, []).append(w)
        res = set()
        seen = set()
        varh = {h for h in self.loops if self.variant_in(addr, h)}
        work = [(ins.block, ins.idx, frozenset())]
        while work:
            b, i, crossed = work.pop()
            stop = False
            ws = by.get(b.name)
            if ws:
                for j in sorted((j for j in ws if j < i), reverse=True):
                    hit = None
                    for w in ws[j]:
                        rel = self.relation(addr, size, w)
                        if crossed:
                            if any(not self.cross_disjoint(addr, size, w, h) for h in crossed) is False:
                                rel = 'no'
                            elif rel == 'must':
                                rel = 'may'
                        if rel != 'no' and hit != 'must':
                            hit = rel
                    if hit:
                        res.add((b.instrs[j], hit))
                        stop = True
                        break
            if stop:
                continue
            if b is self.f.entry:
                res.add('entry')
            for p in self.pred(b):
                cr = crossed
                if (p.name, b.name) in self.backedges and b.name in varh:
                    cr = crossed | {b.name}
                k = (p.name, cr)
                if k not in seen:
                    seen.add(k)
                    work.append((p, 10 ** 9, cr))
        return res

    def cross_disjoint(self, a, size, w, h):
        """a in the current iteration of loop h never overlaps w of an earlier iteration"""
        if w[0].block.name not in self.loops[h]:
            return False
        k = self.ivinfo[h]['k']
        ca, cw = a.coef(k), w[2].coef(k)
        if ca == 0 or ca != cw or w[3] is None:
            return False
        d = (a - w[2])
        c = d.const()
        sw = w[3].const()
        if c is None or sw is None:
            return False
        sa = poly(size).const()
        if sa is None:
            return False
        return c + ca >= sw if ca > 0 else c + ca <= -sa

    def relation(self, addr, size, w):
        ins, bs, wa, wsz, kind = w
        if self.disjoint(addr, size, wa, wsz):
            return 'no'
        if wsz is None:
            return 'may'
        d = addr - wa
        if kind == 'store':
            return 'must' if d == ZERO and wsz == poly(size) else 'may'
        lo = prange(d)[0]
        hi = prange(wsz - d - poly(size))[0]
        return 'must' if lo >= 0 and hi >= 0 else 'may'

    # ------------------------------------------------------------ pruning by constants
    def _prune(self):
        ch = False
        for b in self.rpo:
            t = b.instrs[-1]
            if t.op == 'br' and len(t.extra['succ']) == 2:
                c = self.cond(t.ops[0])
                if c is True or c is False:
                    dead = t.extra['succ'][1 if c else 0]
                    live = t.extra['succ'][0 if c else 1]
                    if dead != live and (b.name, dead) not in self.dead_edges:
                        self.dead_edges.add((b.name, dead))
                        ch = True
            elif t.op == 'switch':
                v = self.val(t.ops[0])
                c = v.const()
                if c is not None:
                    tgt = dict(t.extra['cases']).get(c, t.extra['default'])
                    for s in b.succ:
                        if s.name != tgt and (b.name, s.name) not in self.dead_edges:
                            self.dead_edges.add((b.name, s.name))
                            ch = True
        return ch

    # ------------------------------------------------------------ helpers for rules
    def calls(self, *names):
        return [ins for b in self.rpo for ins in b.instrs if ins.op == 'call' and (not names or ins.callee in names)]

    def args(self, ins):
        return [self.val(o, t) for o, t in zip(ins.ops, ins.extra['argty'])]

    def where(self, ins):
        return self.mod.where(ins)

    def rets(self):
        return [b.instrs[-1] for b in self.rpo if b.instrs[-1].op == 'ret']

    def edge_cond(self, b, s):
        """condition under which block b continues to s"""
        t = b.instrs[-1]
        if t.op == 'br' and len(t.extra['succ']) == 2:
            a, c = t.extra['succ']
            if a == c:
                return True
            cd = self.cond(t.ops[0])
            return cd if s.name == a else Not(cd)
        if t.op == 'switch':
            v = self.val(t.ops[0])
            cs = [c for c, x in t.extra['cases'] if x == s.name]
            other = [c for c, x in t.extra['cases'] if x != s.name]
            if t.extra['default'] == s.name:
                return And(*[Not(Eq(v, c)) for c in other])
            return Or(*[Eq(v, c) for c in cs])
        return True


class State:
    """must-facts plus rule-specific must/may tags"""
    __slots__ = ('facts', 'must', 'may')

    def __init__(self, facts=frozenset(), must=frozenset(), may=frozenset()):
        self.facts = facts
        self.must = must
        self.may = may

    def __eq__(self, o):
        return self.facts == o.facts and self.must == o.must and self.may == o.may

    def meet(self, o):
        return State(self.facts & o.facts, self.must & o.must, self.may | o.may)

    def add(self, *tags):
        return State(self.facts, self.must | set(tags), self.may | set(tags))

    def resolve(self, p):
        """replace conditional values whose condition is decided here"""
        for _ in range(4):
            for a in p.atoms():
                if a[0] == 'ite':
                    h = self.holds(a[1])
                    if h is not None:
                        p = p.subst(a, a[2] if h else a[3])
                        break
                elif a[0] == 'b2i':
                    h = self.holds(a[1])
                    if h is not None:
                        p = p.subst(a, 1 if h else 0)
                        break
            else:
                return p
        return p

    def known(self, p):
        """constant value of polynomial p under the facts, or None"""
        p = self.resolve(poly(p))
        c = p.const()
        if c is not None:
            return c
        for a in p.atoms():
            v = self._direct(a)
            if v is not None:
                p = p.subst(a, v)
        return p.const()

    def _direct(self, a, follow=True):
        two = []
        for (f, pol) in self.facts:
            if pol and f[0] == 'eq' and a in f[1].aset():
                cf = f[1].coef(a)
                if abs(cf) == 1:
                    ms = [m for m, _ in f[1].t if m != ()]
                    if len(ms) == 1:
                        return -f[1].c0() * cf
                    if follow and len(ms) == 2:
                        two.append(f[1])
        for e in two:
            o = next(m for m, _ in e.t if m != () and m != (a,))
            if len(o) == 1:
                v = self._direct(o[0], False)
                if v is not None:
                    r = e.subst(o[0], v)
                    return -r.c0() * r.coef(a)
        return None

    def holds(self, cond):
        """True if cond is implied, False if refuted, None if neither is known"""
        if cond is True or cond is False:
            return cond
        if cond[0] == 'and':
            rs = [self.holds(c) for c in cond[1]]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if cond[0] == 'or':
            rs = [self.holds(c) for c in cond[1]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        a, pol = cond[1], cond[2]
        if (a, pol) in self.facts:
            return True
        if a[0] == 'ge':
            r = self._ge(a[1])
            if r:
                return True
            r = self._ge(-a[1] - 1)
            if r:
                return False
            return None
        if (a, not pol) in self.facts:
            return False
        if a[0] == 'eq':
            v = self.known(a[1])
            if v is not None:
                return (v == 0) == pol
            if self._ge(a[1] - 1) or self._ge(-a[1] - 1):
                return not pol
            # equality by substitution of known equal atoms
            p = a[1]
            ps = p.aset()
            for (f, fp) in self.facts:
                if fp and f[0] == 'eq' and f is not a and ps == f[1].aset():
                    d = p - f[1]
                    if d.const() is not None:
                        return (d.const() == 0) == pol
                    d = p + f[1]
                    if d.const() is not None:
                        return (d.const() == 0) == pol
            # disequalities x != c decide nothing else
        return None

    def _ge(self, p):
        lo, hi = prange(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        ps = p.aset()
        for (f, pol) in self.facts:
            if f[0] not in ('ge', 'eq') or ps.isdisjoint(f[1].aset()):
                continue
            if f[0] == 'ge' and pol:
                if prange(p - f[1])[0] >= 0:
                    return True
            elif f[0] == 'eq' and pol:
                if prange(p - f[1])[0] >= 0 or prange(p + f[1])[0] >= 0:
                    return True
            elif f[0] == 'eq' and not pol:
                # x != 0 and x >= 0 gives x - 1 >= 0
                q = f[1]
                if prange(q)[0] >= 0 and prange(p - (q - 1))[0] >= 0:
                    return True
                if prange(q)[1] <= 0 and prange(p - (-q - 1))[0] >= 0:
                    return True
        return False


def literals(cond):
    """literal facts implied by cond being true"""
    if cond is True or cond is False:
        return []
    if cond[0] == 'lit':
        return [(cond[1], cond[2])]
    if cond[0] == 'and':
        out = []
        for c in cond[1]:
            out += literals(c)
        return out
    return [(('or', cond[1]), True)]


def strides(facts, p):
    """forms of p >= 0, p moving in strides with a counter, whose other end is known to be a multiple of the stride"""
    cs = [p.coef(a) for a in p.aset() if a[0] == 'k']
    if not cs or min(abs(c) for c in cs) < 2:
        return []
    out = []
    for f, pol in facts:
        if not pol or f[0] != 'eq':
            continue
        for a in f[1].aset():
            if a[0] != 'k' and abs(f[1].coef(a)) == 1 and abs(p.coef(a)) == 1:
                g = Ge(p.subst(a, poly(a) - f[1] * f[1].coef(a)))
                if g not in (True, False) and g[0] == 'lit' and g[1][0] == 'ge' and g[2]:
                    if any(abs(g[1][1].coef(x)) == 1 for x in g[1][1].aset() if x[0] == 'k'):
                        out.append(g)
    return out


def tests(st, c):
    """literals of the condition of an edge, with the forms the state gives them"""
    out = list(literals(c))
    for l, pol in list(out):
        if l[0] == 'ge' and pol:
            for g in strides(st.facts, l[1]):
                out += literals(g)
    return out


def assume(st, cond):
    """state with cond added; None if contradictory"""
    if cond is True:
        return st
    if cond is False:
        return None
    h = st.holds(cond)
    if h is False:
        return None
    if h is True and cond[0] != 'lit':
        return st
    if h is None and cond[0] == 'lit' and cond[1][0] == 'eq' and any(a[0] == 'trunc' for a in cond[1][1].atoms()):
        # conversions that lose nothing here
        p = cond[1][1]
        for a in p.atoms():
            if a[0] == 'trunc':
                x = poly(a[2])
                if prove(st.facts, x) and prove(st.facts, poly(2 ** a[1] - 1) - x):
                    p = p.subst(a, x)
        if p != cond[1][1]:
            e = Eq(p) if cond[2] else Not(Eq(p))
            st = assume(st, e)
            if st is None:
                return None
    new = set(st.facts)
    for f in literals(cond):
        if f[0][0] == 'or':
            # unit propagation
            rest = []
            sat = False
            for c in f[0][1]:
                r = st.holds(c)
                if r is True:
                    sat = True
                    break
                if r is None:
                    rest.append(c)
            if sat:
                continue
            if not rest:
                return None
            if len(rest) == 1:
                s2 = assume(State(frozenset(new), st.must, st.may), rest[0])
                if s2 is None:
                    return None
                new = set(s2.facts)
                continue
            new.add((('or', tuple(rest)), True))
        else:
            new.add(f)
            # bounded from both sides
            l, pol = f
            if l[0] == 'ge' and pol:
                for g in strides(st.facts, l[1]):
                    new |= set(literals(g))
            if l[0] == 'ge' and pol and (('ge', -l[1]), True) in new:
                e = Eq(l[1])
                if e is False or st.holds(e) is False:
                    return None
                if e is not True:
                    new |= set(literals(e))
            elif l[0] == 'eq' and not pol and (('ge', l[1]), True) in new and (('ge', -l[1]), True) in new:
                return None
    # propagate stored disjunctions
    st2 = State(frozenset(new), st.must, st.may)
    for (f, pol) in list(new):
        if f[0] == 'or':
            rs = [(c, st2.holds(c)) for c in f[1]]
            if any(r is True for _, r in rs):
                continue
            left = [c for c, r in rs if r is None]
            if not left:
                return None
            if len(left) == 1 and len(left) < len(f[1]):
                st3 = assume(State(frozenset(new - {(f, pol)}), st.must, st.may), left[0])
                return st3
    return st2


class Facts:
    """must-fact dataflow; hook(state, instr) -> state lets a rule add tags"""

    def __init__(self, fn, hook=None, track=None, init=State(), edgehook=None, maxkeys=400):
        self.fn = fn
        self.hook = hook
        self.edgehook = edgehook
        self.maxkeys = maxkeys
        self.track = track
        self._stale = {}
        self._bottom = {}
        self.tracked = self._tracked()
        self.live = self._liveness()
        self.at = {}            # block -> {key: State} at block entry
        self._run(init)

    # phis worth keeping apart: integer phis merging constants (return codes, cleanup selectors, flags)
    def _tracked(self):
        fn = self.fn
        out = {}
        ch = True
        cands = []
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op != 'phi':
                    break
                if ins.name in fn.iv or ins.ty[0] != 'i':
                    continue
                a = fn.val(('loc', ins.name), ins.ty).single()
                if a is None:
                    continue
                if a[0] == 'b2i':
                    out[ins.name] = a
                    continue
                if a[0] != 'phi' or a[2] != ins.name or self.stale(b, ins):
                    continue
                cands.append((ins, a))
        while ch:
            ch = False
            for ins, a in cands:
                if ins.name in out:
                    continue
                inc = [v for v, bn in zip(ins.ops, ins.extra['blocks']) if bn in fn.alive]
                if sum(1 for v in inc if v[0] == 'c') >= 1 or any(v[0] == 'loc' and v[1] in out for v in inc) \
                        or a[3] == (0, 1) and any(fn.val(v, ins.ty).single() in out.values() for v in inc):
                    out[ins.name] = a
                    ch = True
        return out

    def stale(self, b, ins):
        """loop-carried leftovers of a variable that is unset when the loop is entered"""
        r = self._stale.get(ins.name)
        if r is None:
            self._stale[ins.name] = False
            r = False
            if b.name in self.fn.loops:
                for v, bn in zip(ins.ops, ins.extra['blocks']):
                    if (bn, b.name) in self.fn.backedges:
                        continue
                    if v[0] == 'undef':
                        r = True
                    elif v[0] == 'loc':
                        d = self.fn.f.defs.get(v[1])
                        if d is not None and d.op == 'phi' and self.stale(d.block, d):
                            r = True
            self._stale[ins.name] = r
        return r

    def _liveness(self):
        """tracked phi names live at block entry (through derived values)"""
        fn = self.fn
        # which tracked phis does each SSA value depend on (within expressions)
        dep = {}
        atoms = {}
        for nm, a in self.tracked.items():
            atoms[a] = nm
            if a[0] == 'b2i':
                atoms[a[1][1]] = nm
        order = list(fn.rpo)
        uses = {b.name: set() for b in order}
        defs = {b.name: set() for b in order}

        def deps(v):
            if v[0] != 'loc':
                return set()
            nm = v[1]
            if nm in dep:
                return dep[nm]
            d = fn.f.defs.get(nm)
            s = set()
            if d is not None and d.ty[0] in ('i', 'ptr'):
                for a in all_atoms(fn.val(v, d.ty)):
                    if a in atoms:
                        s.add(atoms[a])
            if nm in self.tracked:
                s.add(nm)
            dep[nm] = s
            return s
        edgeuse = {}
        useful = set()
        st = []
        for b in order:
            for ins in b.instrs:
                if ins.op not in ('phi', 'select', 'add', 'sub', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'icmp', 'freeze') \
                        and not (ins.op == 'call' and (ins.callee in fn.logonly or ins.callee in ('fprintf', 'printf', 'vfprintf'))):
                    st += [o[1] for o in ins.ops if o[0] == 'loc']
        while st:
            v = st.pop()
            if v in useful:
                continue
            useful.add(v)
            d = fn.f.defs.get(v)
            if d is not None:
                st += [o[1] for o in d.ops if o[0] == 'loc']
        for b in order:
            for ins in b.instrs:
                if ins.name is not None and ins.name not in useful:
                    continue
                if ins.op == 'phi':
                    if ins.name in self.tracked:
                        defs[b.name].add(ins.name)
                    for v, bn in zip(ins.ops, ins.extra['blocks']):
                        edgeuse.setdefault((bn, b.name), set()).update(deps(v))
                    continue
                if ins.op in ('select', 'add', 'sub', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'icmp', 'freeze'):
                    continue          # counted where the result is used
                for o in ins.ops:
                    uses[b.name] |= deps(o) if o[0] == 'loc' else set()
        livein = {b.name: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in fn.succ(b):
                    out |= livein[s.name] - defs[s.name]
                    out |= edgeuse.get((b.name, s.name), set())
                n = (out | uses[b.name] | defs[b.name])
                if n != livein[b.name]:
                    livein[b.name] = n
                    ch = True
        return livein

    def key(self, b, st):
        k = []
        for nm in self.live[b.name]:
            a = self.tracked[nm]
            if a[0] == 'b2i':
                k.append((nm, st.holds(a[1])))
                continue
            v = st.known(poly(a))
            if v is None:
                h = st.holds(Eq(poly(a)))
                v = 'nz' if h is False else None
            k.append((nm, v))
        k.sort(key=lambda x: x[0])
        if self.track:
            k.append(self.track(st))
        return tuple(k)

    def transfer(self, b, st):
        if self.hook:
            for ins in b.instrs:
                st = self.hook(st, ins)
                if st is None:
                    return None
        return st

    def edge(self, b, s, st):
        """states on the edge b -> s; conditional values entering tracked phis split the state"""
        fn = self.fn
        st = assume(st, fn.edge_cond(b, s))
        if st is None:
            return []
        if b.name in fn.loops and s.name not in fn.loops[b.name]:
            # a counter tested at the head of its loop leaves with its bound
            k = fn.ivinfo[b.name]['k']
            for l, pol in tests(st, fn.edge_cond(b, s)):
                if pol and l[0] == 'ge' and l[1].coef(k) == 1:
                    B = poly(k) - l[1]
                    if prange(B)[0] >= 0 and not fn.variant_in(B, b.name):
                        st = assume(st, Ge(B - poly(k)))
                        if st is None:
                            return []
        elif b.name in fn.loops:
            # going on as long as it differs from its bound, a counter stays below
            k = fn.ivinfo[b.name]['k']
            for l, pol in literals(fn.edge_cond(b, s)):
                if not pol and l[0] == 'eq' and abs(l[1].coef(k)) == 1:
                    B = poly(k) - (l[1] if l[1].coef(k) == 1 else -l[1])
                    if k not in all_atoms(B) and prange(B)[0] >= 0 and not fn.variant_in(B, b.name):
                        st = assume(st, Ge(B - poly(k) - 1))
                        if st is None:
                            return []
        if self.edgehook:
            st = self.edgehook(st, b, s)
            if st is None:
                return []
        sts = [st]
        for ins in s.instrs:
            if ins.op != 'phi':
                break
            if ins.name not in self.tracked or ins.name not in self.live[s.name]:
                continue
            for o, bn in zip(ins.ops, ins.extra['blocks']):
                if bn != b.name or o[0] != 'loc':
                    continue
                q = fn.val(o, ins.ty)
                for _ in range(3):
                    nxt = []
                    for x in sts:
                        a = x.resolve(q).single()
                        if a and a[0] in ('ite', 'b2i') and x.holds(a[1]) is None and len(sts) < 8:
                            nxt += [y for y in (assume(x, a[1]), assume(x, Not(a[1]))) if y is not None]
                        else:
                            nxt.append(x)
                    if len(nxt) == len(sts):
                        break
                    sts = nxt
        return [y for y in (self._edge(b, s, x) for x in sts) if y is not None]

    def _edge(self, b, s, st):
        fn = self.fn
        back = (b.name, s.name) in fn.backedges
        eqs = []
        for ins in s.instrs:
            if ins.op != 'phi':
                break
            if ins.ty[0] not in ('i', 'ptr') or ins.name in fn.iv:
                continue
            p = fn.val(('loc', ins.name), ins.ty)
            a = p.single()
            if a is None:
                continue
            v = None
            for o, bn in zip(ins.ops, ins.extra['blocks']):
                if bn == b.name:
                    v = o
            if v is None or v[0] == 'undef' or (back and self.stale(s, ins)):
                continue
            if a[0] == 'b2i' and a[1][0] == 'lit' and a[1][1][0] == 'bool' and a[1][1][1][0] == 'phi' and a[1][1][1][2] == ins.name:
                c = fn.cond(v)
                h = st.holds(c)
                eqs.append(('bool', a, c, h))
            elif a[0] == 'phi' and a[2] == ins.name:
                q = st.resolve(fn.val(v, ins.ty))
                k = st.known(q)
                nz = None
                if k is None and ins.ty[0] == 'i':
                    h = st.holds(Eq(q))
                    nz = h is False
                    rng = self.bounds(st, q)
                else:
                    rng = None
                eqs.append(('int', a, q, k, nz, rng))
        facts = st.facts
        must = st.must
        if back:
            h = s.name
            facts = frozenset(f for f in facts if not fn.variant_in(f[0], h))
            must = frozenset(t for t in must if not fn.variant_in(t, h))
        else:
            # facts about a phi being redefined cannot exist on a forward edge except through inner loops
            pass
        new = set(facts)
        for p in self.tested(s):
            # what the test at the bottom of a loop says about its counter
            k = fn.ivinfo[s.name]['k']
            if prove(st.facts, p if back else deep(p, k, poly(0)) + 1):
                l = Ge(p + 1)
                if l not in (True, False):
                    new.update(literals(l))
        for e in eqs:
            if e[0] == 'bool':
                _, a, c, h = e
                if h is True or h is False:
                    new.add((a[1][1], h == a[1][2]))
                elif not back and c not in (True, False) and c[0] == 'lit':
                    pass
            else:
                _, a, q, k, nz, rng = e
                if k is not None:
                    l = Eq(poly(a), k)
                    if l not in (True, False):
                        new.update(literals(l))
                    if k != 0:
                        l = Not(Eq(poly(a)))
                        if l not in (True, False):
                            new.update(literals(l))
                else:
                    if nz:
                        l = Not(Eq(poly(a)))
                        if l not in (True, False):
                            new.update(literals(l))
                    if not back or not fn.variant_in(q, s.name):
                        l = Eq(poly(a), q)
                        if l not in (True, False):
                            new.update(literals(l))
        return State(frozenset(new), must, st.may)

    def tested(self, h):
        """p such that the loop at h goes round again only while p >= 0, p decreasing with its counter"""
        fn = self.fn
        if h.name not in fn.loops:
            return ()
        if h.name not in self._bottom:
            k = fn.ivinfo[h.name]['k']
            out = []
            for b in fn.rpo:
                if (b.name, h.name) in fn.backedges and b is not h:
                    for l, pol in literals(fn.edge_cond(b, h)):
                        if pol and l[0] == 'ge' and l[1].coef(k) == -1 and not fn.variant_in(l[1] + poly(k), h.name) and l[1] not in out:
                            out.append(l[1])
            self._bottom[h.name] = out
        return self._bottom[h.name]

    def bounds(self, st, q):
        return None

    def _run(self, init):
        fn = self.fn
        e = fn.f.entry
        self.at = {e.name: {self.key(e, init): init}}
        work = [e]
        inw = {e.name}
        steps = 0
        while work:
            work.sort(key=lambda b: -fn.rpoi[b.name])
            b = work.pop()
            inw.discard(b.name)
            steps += 1
            if steps > 200000:
                raise Broken('fact dataflow does not converge in ' + fn.name)
            outs = {}
            for k, st in list(self.at[b.name].items()):
                o = self.transfer(b, st)
                if o is None:
                    continue
                for s in fn.succ(b):
                    for es in self.edge(b, s, o):
                        kk = self.key(s, es)
                        cur = self.at.setdefault(s.name, {})
                        if kk not in cur and len(cur) >= self.maxkeys:
                            kk = ('overflow',)
                        if kk in cur:
                            m = cur[kk].meet(es)
                            if m == cur[kk]:
                                continue
                            cur[kk] = m
                        else:
                            cur[kk] = es
                        if s.name not in inw:
                            inw.add(s.name)
                            work.append(s)

    # ------------------------------------------------------------ queries
    def states_before(self, ins):
        """states right before instruction ins, one per partition"""
        out = []
        for k, st in self.at.get(ins.block.name, {}).items():
            s = st
            if self.hook:
                for i in ins.block.instrs:
                    if i is ins:
                        break
                    s = self.hook(s, i)
                    if s is None:
                        break
            if s is not None:
                out.append(s)
        return out

    def holds(self, ins, cond):
        """cond holds right before ins on every path"""
        ss = self.states_before(ins)
        return all(s.holds(cond) is True for s in ss)

    def returns(self):
        """[(ret instr, state, value poly)] for every partition reaching a return"""
        out = []
        for r in self.fn.rets():
            for s in self.states_before(r):
                v = self.fn.val(r.ops[0], r.ty) if r.ops else None
                out.append((r, s, v))
        return out

    def success_states(self):
        """states in which the function may return 0, with ret==0 assumed"""
        out = []
        for r, s, v in self.returns():
            if v is None:
                out.append((r, s))
                continue
            s2 = assume(s, Eq(v, 0))
            if s2 is not None:
                out.append((r, s2))
        return out


# ---------------------------------------------------------------- loop generalisation
def _bound_free(fact, acc=None):
    """bound counters of a (nested) generalised fact"""
    ks = []
    while fact[0][0] == 'all':
        ks.append(fact[0][1])
        fact = fact[0][3]
    return ks


def generalise(fn, F, grp):
    """facts that every completed iteration of a loop establishes about its own counter:
    {(header, group): set of facts}"""
    gen = {}
    for h, loop in fn.loops.items():
        k = fn.ivinfo[h]['k']
        per = {}
        dummy = poly(('bound', h))
        for (bn, hn) in fn.backedges:
            if hn != h:
                continue
            b, hb = fn.f.blocks[bn], fn.f.blocks[h]
            for _, st in F.at.get(bn, {}).items():
                o = F.transfer(b, st)
                if o is None:
                    continue
                o = assume(o, fn.edge_cond(b, hb))
                if o is None:
                    continue
                g = grp(o)
                fs = set()
                for f in o.facts:
                    if f[0][0] == 'or' or k not in all_atoms(f[0]):
                        continue
                    x = deep(f[0], k, dummy)
                    for kb in _bound_free(f):
                        x = deep(x, kb, poly(('bound', kb[3])))
                    if not fn.variant_in(x, h):
                        fs.add(f)
                per[g] = fs if g not in per else per[g] & fs
        for g, fs in per.items():
            if fs:
                gen[(h, g)] = fs
    return gen


def forall_facts(fn, hook=None, track=None, init=State(), grp=lambda st: None, edgehook=None, rounds=3, want=None, maxkeys=400):
    """Facts in which loop exits carry ('all', k, bound, fact) for what every iteration established"""
    F = Facts(fn, hook, track, init, edgehook, maxkeys)
    gen = {}
    for _ in range(rounds):
        g2 = generalise(fn, F, grp)
        if want:
            g2 = {x: {f for f in fs if want(f)} for x, fs in g2.items()}
            g2 = {x: fs for x, fs in g2.items() if fs}
        if g2 == gen:
            break
        gen = g2

        def eh(st, b, s):
            if edgehook:
                st = edgehook(st, b, s)
                if st is None:
                    return None
            new = set()
            for h in fn.loopsof.get(b.name, ()):
                if s.name in fn.loops[h]:
                    continue
                fs = gen.get((h, grp(st)))
                if not fs:
                    continue
                k = fn.ivinfo[h]['k']
                c = fn.edge_cond(b, s)
                for l, pol in tests(st, c):
                    if l[0] not in ('ge', 'eq', 'slt', 'ult'):
                        continue
                    if l[0] in ('ge', 'eq'):
                        p = l[1]
                        if not pol:
                            continue
                        cf = p.coef(k)
                        if cf not in (1, -1) or (l[0] == 'ge' and cf != 1):
                            continue
                        B = poly(k) - p * cf          # k == B or k >= B on leaving
                    else:
                        if pol or l[1].coef(k) != 1:   # not (k + c < q)
                            continue
                        B = l[2] - (l[1] - poly(k))
                    if fn.variant_in(B, h):
                        continue
                    use = fs
                    if b.name != h:
                        if (b.name, h) not in fn.backedges:
                            continue
                        use = fs & st.facts
                        B = B + 1
                    new |= {(('all', k, B, f), True) for f in use}
            if new:
                st = State(st.facts | new, st.must, st.may)
            return st
        F = Facts(fn, hook, track, init, eh, maxkeys)
    return F


def instantiate(st, ks):
    """state extended by generalised facts applied to the counters ks (where within the bound)"""
    new = set()
    work = [f for f in st.facts if f[0][0] == 'all']
    while work:
        f = work.pop()
        _, k, B, g = f[0]
        for q in ks:
            if prove(st.facts, B - 1 - poly(q)):
                x = (deep(g[0], k, poly(q)), g[1])
                if x not in new:
                    new.add(x)
                    if x[0][0] == 'all':
                        work.append(x)
    return State(st.facts | new, st.must, st.may) if new else st
