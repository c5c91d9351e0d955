"""P20 hash inputs are complete and unambiguously framed"""
TECHNIQUE = 'sequence analysis of what each hash absorbs (pieces resolved through memory by reaching definitions), compared with the required framing on all successful paths'
NOTE = 'all input lengths and contents, all successful paths of OPRF finalisation, 3hashTDH and session start'
from proto import *
from common import *

INI = ('crypto_hash_sha512_init', 'crypto_generichash_init')
UPD = ('crypto_hash_sha512_update', 'crypto_generichash_update')
FIN = ('crypto_hash_sha512_final', 'crypto_generichash_final')
ONESHOT = {'crypto_hash_sha512': (0, 1, 2, None), 'crypto_generichash': (0, 2, 3, 1)}    # out, in, inlen, outlen


def number(v, w):
    """w bytes stored in memory order of value v"""
    c = v.const()
    if c is not None:
        return ('c', (c % 2 ** (8 * w)).to_bytes(w, 'little'))
    s = v.single()
    if s and s[0] == 'trunc' and s[1] == 8 * w and poly(s[2]).single() and poly(s[2]).single()[:2] == ('op', 'bswap'):
        s = poly(s[2]).single()
    if s and s[:2] == ('op', 'bswap') and s[2] == 8 * w:
        return ('be', w, poly(s[3]))
    return ('b', v) if w == 1 else ('le', w, v)


def pieces(fn, ins, addr, n, depth=4):
    """what the n bytes at addr are, just before ins"""
    b, off = fn.base(addr)
    c = n.const()
    if c == 0:
        return []
    g = fn.globbytes(addr)
    if g is not None and c is not None and len(g) >= c:
        return [('c', bytes(g[:c]))]
    if b is None or b[0] != 'alloca' or depth == 0:
        return [('d', addr, n, fn.defs_at(ins, addr, 1) == {'entry'})]
    if c in (1, 2, 4, 8):
        v = fn.load_at(ins, addr, c)
        r = number(v, c)
        if r[0] in ('c', 'be') or c == 1:
            return [r]
    out = tiled(fn, ins, b, addr, n, depth)
    if out is not None:
        return out
    out, p = [], ZERO
    for _ in range(24):
        left = n - p
        if left.const() == 0:
            return out
        ds = fn.defs_at(ins, addr + p, 1)
        d = next(iter(ds)) if len(ds) == 1 else 'entry'
        if d == 'entry' or d[1] != 'must':
            break
        w = d[0]
        ws = [x for x in fn.writes_of(w) if x[1] == b and (addr + p - x[2]).const() is not None] or [x for x in fn.writes_of(w) if x[1] == b]
        if not ws:
            break
        wa = ws[0][2]
        ws = ws[0][3] if isinstance(ws[0][3], Poly) else poly(ws[0][3]) if ws[0][3] is not None else None
        if ws is None:
            break
        skip = addr + p - wa                     # where in the write we are
        m = ws - skip
        if (left - m).const() is not None and (left - m).const() < 0:
            m = left
        if w.op == 'call' and w.callee in ('memcpy', 'memmove'):
            out += pieces(fn, w, fn.args(w)[1] + skip, m, depth - 1)
        elif w.op == 'call' and w.callee == 'memset' and fn.args(w)[1].const() is not None and m.const() is not None:
            out.append(('c', bytes([fn.args(w)[1].const() % 256]) * m.const()))
        elif w.op == 'store' and m.const() is not None:
            out.append(number(fn.load_at(ins, addr + p, m.const()), m.const()))
        else:
            break
        p = p + m
    return out + [('d', addr + p, n - p, False)]


def tiled(fn, ins, b, addr, n, depth):
    """a buffer put together from copies each beginning where another ends"""
    ws = [w for w in fn.writes() if w[1] == b]
    ws = [w for w in ws if not fn.idominates(ins, w[0])]
    if not ws or any(w[3] is None or w[2] is None or w[0].op != 'call' or w[0].callee not in ('memcpy', 'memmove') or not fn.idominates(w[0], ins)
                     or fn.loopsof.get(w[0].block.name) != fn.loopsof.get(ins.block.name) for w in ws):
        return None
    out, p, left = [], addr, list(ws)
    while left:
        nxt = [w for w in left if w[2] == p]
        if len(nxt) != 1:
            return None
        w = nxt[0]
        out += pieces(fn, w[0], fn.args(w[0])[1], poly(w[3]), depth - 1)
        p = p + poly(w[3])
        left.remove(w)
    return out if p == addr + n else None


def low8(v):
    """x such that v is x mod 256"""
    s = v.single()
    while s and s[0] in ('trunc', 'zext') or s and s[:2] == ('op', 'and') and any(poly(x).const() == 255 for x in s[2:]):
        v = poly(s[2]) if s[0] in ('trunc', 'zext') else next(poly(x) for x in s[2:] if poly(x).const() is None)
        s = v.single()
    return v


def normal(ps):
    """constants written out and merged, byte pairs read as numbers, adjoining data joined"""
    out = []
    for p in ps:
        if p[0] == 'be' and p[2].const() is not None:
            p = ('c', (p[2].const() % 2 ** (8 * p[1])).to_bytes(p[1], 'big'))
        if p[0] == 'b' and p[1].const() is not None:
            p = ('c', bytes([p[1].const() % 256]))
        if p[0] == 'c' and out and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + p[1])
        elif p[0] == 'd' and out and out[-1][0] == 'd' and out[-1][1] + out[-1][2] == p[1]:
            out[-1] = ('d', out[-1][1], out[-1][2] + p[2], out[-1][3] and p[3])
        elif p[0] == 'b' and out and out[-1][0] == 'b':
            h, l = low8(out[-1][1]).single(), low8(p[1])
            if h and h[:2] in (('op', 'lshr'), ('op', 'ashr')) and prange(poly(h[2]))[0] >= 0 and poly(h[3]).const() == 8 and low8(poly(h[2])) == l:
                out[-1] = ('be', 2, poly(h[2]))
            else:
                out.append(p)
        else:
            out.append(p)
    return out


def same(st, a, b):
    def settle(v):
        for _ in range(4):
            for x in v.aset():
                if x[0] == 'trunc':
                    q = settle(poly(x[2]))
                    if prove(st.facts, q) and prove(st.facts, poly(2 ** x[1] - 1) - q):
                        v = v.subst(x, q)
                        break
                    if q != poly(x[2]):
                        v = v.subst(x, poly(('trunc', x[1], q)))
                        break
                if x[0] == 'zext':
                    v = v.subst(x, poly(x[2]))
                    break
            else:
                break
        return v
    a, b = settle(a), settle(b)
    return a == b or st.resolve(a) == st.resolve(b) or prove(st.facts, a - b) and prove(st.facts, b - a)


def matches(st, want, got):
    """None if the absorbed sequence is the wanted one, else what is wrong"""
    want = normal([(p + (True,) if p[0] == 'd' else p) for _, p in want])
    got = [p for p in normal(got) if not (p[0] == 'd' and same(st, p[2], ZERO))]
    want = [p for p in want if not (p[0] == 'd' and same(st, p[2], ZERO))]
    if len(got) != len(want) or any(g[0] != w[0] for g, w in zip(got, want)):
        return 'absorbs %s instead of %s' % (text(got), text(want))
    for g, w in zip(got, want):
        if g[0] == 'c':
            good = g == w
        elif g[0] == 'be':
            good = g[1] == w[1] and same(st, g[2], w[2])
        else:
            good = g[0] == 'd' and g[1] == w[1] and same(st, g[2], w[2]) and g[3]
        if not good:
            return 'absorbs %s where %s belongs' % (text([g]), text([w]))
    return None


def text(ps):
    def one(p):
        if p[0] == 'c':
            return repr(p[1])
        if p[0] == 'd':
            return '%s bytes of %s' % (show(p[2]), show(p[1]))
        if p[0] == 'be':
            return 'the %d-bit length %s' % (8 * p[1], show(p[2]))
        return ' '.join(show(x) if isinstance(x, Poly) else str(x) for x in p)
    return ', '.join(one(p) for p in ps) or 'nothing'


def absorbed(fn, init=State(), base=None, track=None):
    """facts in which tags ('hash', state address, pieces) follow every hash computation, ('out', address, pieces, length) its results"""
    def hit(t, w):
        n = t[3].const() if isinstance(t[3], Poly) else t[3]
        return w[1] is None or w[1] == fn.base(t[1])[0] and (w[2] is None or w[3] is None or n is None or not fn.disjoint(t[1], n, w[2], w[3]))

    def hook(st, ins):
        if base:
            st = base(st, ins)
            if st is None:
                return None
        if ins.op not in ('call', 'store'):
            return st
        tags = set(st.must)
        for w in fn.writes_of(ins) if any(t[0] in ('out', 'copied') for t in tags) else ():
            tags = {t for t in tags if not (t[0] in ('out', 'copied') and hit(t, w))}
        if ins.op == 'call' and ins.callee in ('memcpy', 'memmove'):
            a = fn.args(ins)
            if a[2].const() is not None and any(t[0] in ('out', 'copied') and fn.base(t[1])[0] == fn.base(a[1])[0] for t in tags):
                tags.add(('copied', a[0], a[1], a[2].const()))
        a = fn.args(ins) if ins.op == 'call' and ins.callee in INI + UPD + FIN + tuple(ONESHOT) else None
        if a is None:
            return State(st.facts, frozenset(tags), st.may) if tags != st.must else st
        if ins.callee in ONESHOT:
            o, i, l, ol = ONESHOT[ins.callee]
            n = a[ol] if ol is not None else poly(64)
            tags = {t for t in tags if t[:2] != ('out', a[o])} | {('out', a[o], tuple(pieces(fn, ins, a[i], a[l])), n)}
            if ins.callee == 'crypto_generichash' and a[5] != ZERO:
                tags = {t for t in tags if t[:2] != ('out', a[o])}
        elif ins.callee in INI:
            tags = {t for t in tags if t[:2] != ('hash', a[0])}
            if ins.callee == INI[0] or a[2] == ZERO:
                tags.add(('hash', a[0], (), a[3] if ins.callee == INI[1] else poly(64)))
        else:
            old = next((t for t in tags if t[:2] == ('hash', a[0])), None)
            tags = {t for t in tags if t != old}
            if old is not None and ins.callee in UPD:
                ps = old[2] + tuple(pieces(fn, ins, a[1], a[2]))
                if len(ps) <= 16:
                    tags.add(('hash', a[0], ps, old[3]))
            elif ins.callee in FIN:
                tags = {t for t in tags if t[:2] != ('out', a[1])}
                if old is not None and (ins.callee == FIN[0] or a[2] == old[3]):
                    tags.add(('out', a[1], old[2], old[3]))
        return State(st.facts, frozenset(tags), st.may)
    seq = lambda st: frozenset(t for t in st.must if t[0] in ('hash', 'out', 'copied'))
    return Facts(fn, hook, (lambda st: (track(st), seq(st))) if track else seq, init)


def source(st, addr, n):
    """the address a hash wrote the n bytes at addr to"""
    for _ in range(4):
        if any(t[0] == 'out' and t[1] == addr for t in st.must):
            return addr
        c = next((t for t in st.must if t[0] == 'copied' and (addr - t[1]).const() is not None and 0 <= (addr - t[1]).const() <= t[3] - n), None)
        if c is None:
            return None
        addr = c[2] + (addr - c[1])
    return None


def compare(R, rule, fn, states, name, what, want, where=None):
    """states: [(instruction, state, address of the result, length)]"""
    for ins, st, addr, n in states:
        w = where or fn.where(ins)
        src = source(st, addr, n)
        got = next((t for t in st.must if t[0] == 'out' and t[1] == src), None) if src is not None else None
        if not R.ok(got is not None and got[3].const() is not None and got[3].const() >= n, rule, w, '%s: %s is not the whole result of the hash' % (name, what)):
            continue
        why = matches(st, want, got[2])
        R.ok(why is None, rule, w, '%s: %s %s' % (name, what, why))


def check(R):
    P = Proto()
    R.sources = P.sources
    R.rule('finalize', 'the OPRF output is SHA-512 over 16-bit length and bytes of the input, 16-bit length and bytes of the element, and the closing label')
    R.rule('3hashtdh', 'the point is hashed from a 64 byte hash over 16-bit length and bytes of the session identifier and the whole blinded element')
    R.rule('tag', 'the domain tag of the first message is a hash over 16-bit length and bytes of label and protocol name')
    mod = P.mod
    for nm in ('oprf_Finalize', 'toprf_3hashtdh', 'tpdkg_start_tp'):
        if nm not in mod.fns or not mod.fns[nm].blocks:
            raise Broken('%s is gone' % nm)
    # --- OPRF output
    fn = Fn(mod, 'oprf_Finalize', argnames=('x', 'x_len', 'N', 'rwdU'))
    F = absorbed(fn)
    want = [('len', ('be', 2, fn.arg(1))), ('x', ('d', fn.arg(0), fn.arg(1))), ('len', ('be', 2, poly(32))), ('N', ('d', fn.arg(2), poly(32))),
            ('label', ('c', b'Finalize'))]
    compare(R, 'finalize', fn, [(r, st, fn.arg(3), 64) for r, st in F.success_states()], 'oprf_Finalize', 'the output', want)
    # --- 3hashTDH
    fn = Fn(mod, 'toprf_3hashtdh', argnames=('k', 'z', 'alpha', 'ssid', 'ssid_len', 'beta'))
    F = absorbed(fn)
    want = [('len', ('be', 2, fn.arg(4))), ('ssid', ('d', fn.arg(3), fn.arg(4))), ('alpha', ('d', fn.arg(2), poly(32)))]
    hashed = []
    for c in fn.calls('crypto_core_ristretto255_from_hash'):
        for st in F.states_before(c):
            hashed.append((c, st))
    R.ok(bool(hashed), '3hashtdh', 'toprf_3hashtdh', 'toprf_3hashtdh: nothing is hashed to the group')
    for c, st in hashed:
        # the message that goes into the hash to the group: the 64 bytes after the pad
        outs = [t for t in st.must if t[0] == 'out']
        found, why = False, 'is not hashed over the session identifier'
        for o in outs:
            if not any(p[0] == 'd' and fn.base(p[1])[0] is not None and fn.base(p[1])[0][0] == 'alloca' or p[0] == 'c' for p in o[2]):
                w = matches(st, want, o[2])
                if w is None and o[3].const() == 64 and used(fn, o[1], 64, outs):
                    found = True
                elif w is not None:
                    why = w
                else:
                    why = 'does not use the whole hash of session identifier and blinded element'
        R.ok(found, '3hashtdh', fn.where(c), 'toprf_3hashtdh: the point hashed from session identifier and blinded element %s' % why)
    # --- domain tag
    step = Step(P, 'tp', 'start')
    fn = step.fn
    proto, plen = fn.arg(4), fn.arg(5)
    F = absorbed(fn, step.init, step.hook, step.track)
    label = b'TP DKG for protocol '
    want = [('len', ('be', 2, plen + len(label))), ('label', ('c', label)), ('name', ('d', proto, plen))]
    addr = fn.arg(7) + P.msg['data'][0] + 32
    compare(R, 'tag', fn, [(r, st, addr, 32) for r, st in F.success_states()], 'tpdkg_start_tp', 'the domain tag', want)
    for rule in ('finalize', '3hashtdh', 'tag'):
        R.floor(rule, 1)


def used(fn, addr, n, outs):
    """some later hash absorbs all n bytes at addr"""
    for o in outs:
        for p in o[2]:
            if p[0] == 'd' and p[1] == addr and p[2].const() is not None and p[2].const() >= n:
                return True
    return False
