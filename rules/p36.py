"""P36 hashing to the group follows the standard expansion for every length"""
TECHNIQUE = 'abstract interpretation in a term domain (hashes over memory contents, symbolic lengths) of inlined LLVM IR, specialised by number of output blocks with the block loop unrolled to its bound; results compared with the standard formula'
NOTE = 'every message, every tag length, every output length up to 255 bytes, split by the number of output blocks; SHA-512 and the map to the group are taken as given'
import os, re, signal, tempfile, shutil
from common import *
import build, ir, flow
from flow import Fn, State
from terms import Terms, normal, show_value, add

FN = 'expand_message_xmd'
FROM = 'crypto_core_ristretto255_from_hash'
LABEL = b'HashToGroup-OPRFV1-\0-ristretto255-SHA512'
CFG = 'simplifycfg<keep-loops;no-switch-to-lookup>'
COMB = 'instcombine<no-verify-fixpoint>'
PASSES = 'always-inline,function(sroa,%s,early-cse,correlated-propagation,%s,loop-mssa(loop-rotate),indvars,loop-unroll<O3;upperbound>,sroa,%s,correlated-propagation,%s,%s,loop-simplify)' % (
    COMB, CFG, COMB, CFG, COMB)
OPTIONS = ('-unroll-full-max-count=8', '-unroll-max-upperbound=8', '-unroll-allow-partial=0', '-unroll-runtime=0', '-unroll-threshold=100000')
# output lengths by number of blocks, and tag lengths; together they cover all values
LENS = ('0', '1+(k&63)', '65+(k&63)', '129+(k&63)', '193+k%63')
TAGS = ('(d&127)', '(128+d%127)', '255')


def module(lens=LENS):
    """the library with one specialised copy of the expansion for each kind of output and tag length"""
    src = os.path.join(build.REPO, 'src')
    u = build.units(src, ['liboprf.a'])
    core = [s for s in u if '/noise_xk/' not in s and '/tests/' not in s]
    home = [s for s in core if re.search(r'\b%s\s*\([^;{}]*\)\s*\{' % FN, re.sub(r'/\*.*?\*/|//[^\n]*', ' ', open(s).read(), flags=re.S))]
    if len(home) != 1:
        raise Broken('%s is gone' % FN)
    t = '#include "%s"\nvoid specialised(uint8_t, uint8_t);\n' % home[0]
    for i, d in enumerate(TAGS):
        for j, n in enumerate(lens):
            t += 'int expanded_%d_%d(const uint8_t *m, const uint8_t ml, const uint8_t *t, const uint8_t d, const uint8_t k, uint8_t *o) {\n' % (i, j)
            t += '  specialised(%s, %s);\n  return %s(m, ml, t, %s, %s, o);\n}\n' % (d, n, FN, d, n)
    tmp = tempfile.mkdtemp(prefix='sa-')
    try:
        c = os.path.join(tmp, 'spec.c')
        open(c, 'w').write(t)
        fl = dict(u)
        fl[c] = ['-I', src] + u[home[0]]
        text = build.normalised([c] + [s for s in core if s != home[0]], lambda s: fl[s], src, (), (), PASSES, OPTIONS,
                                lambda t: t.replace('llvm.loop.unroll.disable', 'llvm.loop.may.unroll'))
    finally:
        shutil.rmtree(tmp)
    return ir.parse_module(text), core


def seg(t, n):
    return ((t, 0, n),)


def const(b):
    return seg(('const', b), len(b))


class Blocks(Terms):
    """terms over SHA-512 and byte-wise sums of two ranges"""

    def pair(self, h):
        fn = self.fn
        k = fn.ivinfo[h]['k']
        n = self.trips(h)
        if n is None:
            return None
        out = []
        for bn in fn.loops[h]:
            if bn in fn.loops and bn != h:
                return None
            for ins in fn.f.blocks[bn].instrs:
                if ins.op == 'call' and fn.writes_of(ins):
                    return None
                if ins.op == 'store':
                    out.append((bn, ins))
        if len(out) != 1 or not self.everytime(h, out[0][0]):
            return None
        ins = out[0][1]
        z = fn.mod.types.size(ins.extra['ty'])
        loads = self.summands(ins.ops[0])
        if loads is None or len(loads) != 2 or any(fn.mod.types.size(l.ty) != z for l in loads):
            return None
        at = [fn.val(ins.ops[1])] + [fn.val(l.ops[0]) for l in loads]
        if any(a.coef(k) != z or fn.variant_in(a - poly(k) * z, h) for a in at):
            return None
        at = [a - poly(k) * z for a in at]
        if any(a != at[0] and fn.base(a)[0] in (None, fn.base(at[0])[0]) for a in at[1:]):
            return None
        return [(ins, at[0], (at[1], at[2]), 0, n * z)]

    def summands(self, o):
        d = self.fn.f.defs.get(o[1]) if o[0] == 'loc' else None
        if d is None:
            return None
        if d.op == 'load':
            return [d]
        if d.op in ('zext', 'trunc', 'freeze'):
            return self.summands(d.ops[0])
        if d.op == 'xor':
            x, y = self.summands(d.ops[0]), self.summands(d.ops[1])
            return None if x is None or y is None else x + y
        return None

    def summary(self, h):
        return self.pair(h) or Terms.summary(self, h)

    def enter(self, st, b, s):
        x = self.sums.get(s.name)
        if x and isinstance(x[0][2], tuple):
            if b.name in self.fn.loops[s.name]:
                return st
            _, to, (p, q), _, n = x[0]
            n = self.num(st, n)
            return self.write(st, to, n, ((('sum', *sorted((self.read(st, p, n), self.read(st, q, n)), key=str)), 0, n),))
        return Terms.enter(self, st, b, s)

    def num(self, st, p):
        """also masks that change nothing and minima that are decided"""
        for _ in range(6):
            p = poly(Terms.num(self, st, p))
            for a in sorted(all_atoms(p), key=str):
                r = self.decided(st, a)
                if r is not None:
                    p = deep(p, a, r)
                    break
            else:
                break
        c = p.const()
        return c if c is not None else p

    def decided(self, st, a):
        if a[:2] == ('op', 'and') and len(a) == 4:
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                m = poly(y).const()
                if m is not None and m >= 0 and m & (m + 1) == 0 and self.ge0(st, poly(x)) and self.ge0(st, poly(m) - x):
                    return poly(x)
        if a[0] == 'op' and a[1] in ('umin', 'umax', 'smin', 'smax') and len(a) == 4:
            x, y = poly(a[2]), poly(a[3])
            if self.ge0(st, x) and self.ge0(st, y):
                for x, y in ((x, y), (y, x)):
                    if self.ge0(st, y - x):
                        return x if 'min' in a[1] else y
        if a[0] == 'ite':
            h = a[1] if a[1] in (True, False) else st.holds(a[1])
            if h is not None:
                return poly(a[2] if h else a[3])
            # one of two numbers of which the smaller or larger is meant
            c = a[1]
            pol = True
            while c[0] == 'not':
                c, pol = c[1], not pol
            if c[0] == 'ge':
                if self.ge0(st, c[1]):
                    return poly(a[2] if pol else a[3])
                if self.ge0(st, poly(0) - c[1] - 1):
                    return poly(a[3] if pol else a[2])
                if self.ge0(st, poly(0) - c[1]) and poly(a[2]) - poly(a[3]) in (c[1], poly(0) - c[1]):
                    return poly(a[3] if pol else a[2])     # equal where the other one would be taken
            if c[0] in ('ult', 'slt'):
                if self.ge0(st, poly(c[2]) - c[1] - 1) and self.ge0(st, c[1]):
                    return poly(a[2] if pol else a[3])
                if self.ge0(st, poly(c[1]) - c[2]) and self.ge0(st, c[2]):
                    return poly(a[3] if pol else a[2])
        return None

    def call(self, st, ins):
        fn, c = self.fn, ins.callee
        a = fn.args(ins) if c.startswith('crypto_hash_sha512') else None
        if c == 'crypto_hash_sha512':
            return self.write(st, a[0], 64, seg(('sha', self.read(st, a[1], a[2])), 64))
        if a is not None:
            base, off = self.where(st, a[0])
            if base is None:
                return self.havoc(st)
            cur = next((t for t in st.must if t[0] == 'hs' and t[1] == base), None)
            if c.endswith('_init'):
                st = self.kill(st, base, ZERO, None)
                return State(st.facts, st.must | {('hs', base, ())}, st.may)
            if c.endswith('_update'):
                return st if cur is None else State(st.facts, (st.must - {cur}) | {('hs', base, cur[2] + self.read(st, a[1], a[2]))}, st.may)
            if c.endswith('_final'):
                st = self.kill(st, base, ZERO, None)
                return self.write(st, a[1], 64, seg(('sha', cur[2]) if cur is not None else ('unknown', ins.uid), 64))
        return Terms.call(self, st, ins)


def clear(T, st, segs):
    """one way of writing the same bytes"""
    out = []
    for s, o, n in segs:
        if s[0] == 'v' and o == 0 and n == s[2]:
            v = poly(T.num(st, s[1]))
            while n and v.const() is None and all(c % 256 == 0 for _, c in terms_of(v)):
                out.append((('const', b'\0'), 0, 1))
                v, n = poly(T.num(st, divided(v, 256))), n - 1
            if n > 1 and T.ge0(st, v) and T.ge0(st, poly(255) - v):
                out += [(('v', v, 1), 0, 1), (('const', bytes(n - 1)), 0, n - 1)]
            elif n:
                out.append((('v', v, n), 0, n))
        elif s[0] == 'sha':
            out.append((('sha', clear(T, st, s[1])), o, n if isinstance(n, int) else poly(T.num(st, n))))
        elif s[0] == 'sum':
            out.append((('sum', *sorted((clear(T, st, x) for x in s[1:]), key=str)), o, n))
        else:
            out.append((s, o, n if isinstance(n, int) else poly(T.num(st, n))))
    return normal(out)


def terms_of(v):
    return [(m, c) for m, c in v.t] if not isinstance(v.t, dict) else list(v.t.items())


def divided(v, q):
    out = ZERO
    for m, c in terms_of(v):
        x = poly(1)
        for a in m:
            x = x * poly(a)
        out = out + x * (c // q)
    return out


def standard(msg, ml, tag, tl, n, blocks):
    """the blocks the standard prescribes; tag: its value, tl: its length"""
    tail = tag + const(bytes([tl])) if isinstance(tl, int) else tag + seg(('v', poly(tl), 1), 1)
    two = const(n.to_bytes(2, 'big')) if isinstance(n, int) else const(b'\0') + seg(('v', poly(n), 1), 1)
    b0 = seg(('sha', normal(const(bytes(128)) + seg(('in', msg), ml) + two + const(b'\0') + tail)), 64)
    out, last = [], b0
    for i in range(1, blocks + 1):
        x = b0 if i == 1 else seg(('sum', *sorted((b0, last), key=str)), 64)
        last = seg(('sha', normal(x + const(bytes([i])) + tail)), 64)
        out.append(last)
    return out


def check(R):
    mod, R.sources = module()
    R.rule('expand', 'expansion gives the blocks of the standard, cut to exactly the length asked for')
    R.rule('bounds', 'expansion writes nothing but the bytes asked for')
    R.rule('group', 'hashing to the group maps the 64 byte expansion of exactly the given input under the fixed tag')
    found = limited(lambda: expansions(mod, LENS))
    if found is None or any(not ok for ok, *_ in found):
        # what depends on the output length is plain for each single length
        lens = [str(n) for n in range(256)]
        found = limited(lambda: expansions(module(lens)[0], lens), 600)
        if found is None:
            raise Broken('the analysis of %s does not come to an end' % FN)
    for ok, rule, at, text in found:
        R.ok(ok, rule, at, text)
    for f, out in (('voprf_hash_to_group', 2), ('oprf_Blind', None)):
        if f not in mod.fns or not mod.fns[f].blocks:
            R.broken('%s is gone' % f)
            continue
        hashed(R, 'group', mod, f, out)
    R.floor('expand', 8)
    R.floor('group', 2)


def limited(f, seconds=60):
    """f(), None if that takes too long"""
    class Long(Exception):
        pass

    def stop(*_):
        raise Long
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        return f()
    except Long:
        return None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def expansions(mod, lens):
    """[(right, rule, where, what is wrong)]"""
    out, seen = [], set()

    def note(ok, rule, at, text):
        if ok or (rule, text) not in seen:
            out.append((ok, rule, at, text))
            seen.add((rule, text))
    for i, d in enumerate(TAGS):
        for j, l in enumerate(lens):
            blocks = j if lens is LENS else (j + 63) // 64
            fn = Fn(mod, 'expanded_%d_%d' % (i, j), argnames=('message', 'message length', 'tag', 'd', 'k', 'output'))
            T = Blocks(fn)
            call = next(iter(fn.calls('specialised')))
            ends = list(fn.calls('crypto_hash_sha512_final')) + list(fn.calls('crypto_hash_sha512'))
            at = fn.where(ends[-1] if ends else call).split(' via ')[0]
            who = '%s with %d output blocks and a tag of %s bytes' % (FN, blocks, ('up to 127', '128 to 254', '255')[i])
            good = 0
            for r, st, v in T.F.returns():
                st = flow.assume(st, Eq(v))
                if st is None:
                    continue
                good += 1
                dl, n = (T.num(st, x) for x in fn.args(call))
                tag = seg(('in', fn.arg(2).single()), dl)
                want = standard(fn.arg(0).single(), fn.arg(1), tag, dl, n, blocks)
                if want:
                    want[-1] = ((want[-1][0][0], 0, T.num(st, poly(n) - 64 * (blocks - 1))),)
                want = clear(T, st, sum(want, ()))
                got = clear(T, st, T.read(st, fn.arg(5), n))
                note(got == want, 'expand', at, '%s: %s' % (who, differ(got, want)))
                for t in st.may:
                    if t[0] == 'w' and (t[1] is None or t[1] == fn.arg(5).single()):
                        ok = t[1] is not None and t[3] is not None and T.ge0(st, poly(T.num(st, t[2]))) and T.ge0(st, poly(T.num(st, poly(n) - t[2] - t[3])))
                        note(ok, 'bounds', at, '%s: writes outside the bytes asked for' % who)
            if i < 2 and not good:
                note(False, 'expand', at, '%s: never succeeds' % who)
    return out


def hashed(R, rule, mod, f, out):
    fn = Fn(mod, f)
    T = Blocks(fn)
    calls = list(fn.calls(FROM))
    want = standard(fn.arg(0).single(), fn.arg(1), const(LABEL), len(LABEL), 64, 1)[0]
    for c in calls:
        for st in T.F.states_before(c):
            a = fn.args(c)
            w = clear(T, st, want)
            got = clear(T, st, T.read(st, a[1], 64))
            R.ok(got == w, rule, fn.where(c), '%s: %s' % (f, differ(got, w)))
            if out is not None:
                R.ok(a[0] == fn.arg(out) or fn.base(a[0])[0] is not None and fn.base(a[0])[0][0] == 'alloca', rule, fn.where(c), '%s: the element is not handed out' % f)
    uids = {c.uid for c in calls}
    for r, st, v in T.F.returns():
        if flow.assume(st, Eq(v)) is not None:
            R.ok(any(t[0] == 'did' and t[1] in uids for t in st.must), rule, fn.where(r), '%s: succeeds without hashing to the group' % f)


def differ(got, want):
    """the first difference, as deep as it can be told"""
    for _ in range(8):
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                break
        else:
            return 'the result has %d parts where %d belong' % (len(got), len(want))
        if g[0][0] == w[0][0] == 'sha' and g[1:] == w[1:]:
            got, want = g[0][1], w[0][1]
        elif g[0][0] == w[0][0] == 'sum' and g[1:] == w[1:]:
            got, want = sum(g[0][1:], ()), sum(w[0][1:], ())
        else:
            return 'holds %s where %s belongs' % (show_value((g,), 1), show_value((w,), 1))
    return 'differs from the standard'
