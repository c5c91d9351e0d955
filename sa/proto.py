"""The TP DKG step engines seen through the dataflow engine: one specialised function per step,
state fields by name (debug information), messages and what is known about them at a point."""
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import build, ir, flow
from build import Broken
from sym import *
from flow import Fn, Facts, State, assume

ARGS = ['ctx', 'input', 'input_len', 'output', 'output_len']
MAXSTEP = 12


class Proto:
    def __init__(self, defines=()):
        text, self.sources = build.library(defines)
        self.mod = ir.parse_module(text)
        self.st = self.mod.structs()
        self.tp = self.fields('TP_DKG_TPState')
        self.peer = self.fields('TP_DKG_PeerState')
        self.msg = self.fields('TP_DKG_Message')
        self.cheater = self.fields('TP_DKG_Cheater')
        for n in ('sig', 'msgno', 'len', 'from', 'to', 'ts', 'sessionid', 'data'):
            if n not in self.msg:
                raise Broken('TP_DKG_Message has no field ' + n)
        self._fn = {}
        self.HDR = self.msg['data'][0]
        self.SIG = self.msg['msgno'][0]

    def fields(self, name):
        if name not in self.st:
            raise Broken('structure %s not found in debug information' % name)
        return {f: (m[0], m[1]) for f, m in self.st[name][0]['members'].items()}

    def size(self, name):
        return self.st[name][0]['size']

    def of(self, role):
        return self.tp if role == 'tp' else self.peer

    def step(self, role, s):
        k = (role, s)
        if k not in self._fn:
            off, size = self.of(role)['step']
            self._fn[k] = Fn(self.mod, 'tpdkg_%s_next' % role, {(0, off, size): s}, ARGS)
        return self._fn[k]

    def func(self, name, argnames=None, cells=()):
        k = (name, tuple(sorted(dict(cells).items())))
        if k not in self._fn:
            self._fn[k] = Fn(self.mod, name, cells, argnames)
        return self._fn[k]

    def start(self, role):
        if role == 'tp':
            return self.func('tpdkg_start_tp', ['ctx', 'ts_epsilon', 'n', 't', 'proto_name', 'proto_name_len', 'msg0_len', 'msg0'])
        return self.func('tpdkg_start_peer', ['ctx', 'ts_epsilon', 'peer_lt_sk', 'msg0'])


# ---------------------------------------------------------------- memory cells followed along paths
def cellhook(fn, cells, more=None):
    """hook that follows the constant contents of the given memory cells {name: (address, size)}"""
    def hook(st, ins):
        if ins.op == 'load':
            a = fn.val(ins.ops[0])
            for nm, (ca, cs) in cells.items():
                if a == ca:
                    t = [x for x in st.must if x[0] == 'cell' and x[1] == nm]
                    if t:
                        st = assume(st, Eq(fn.val(('loc', ins.name), ins.ty), t[0][2]))
                        if st is None:
                            return None
        elif ins.op in ('store', 'call'):
            for w in fn.writes_of(ins):
                for nm, (ca, cs) in cells.items():
                    if w[1] != fn.base(ca)[0] or fn.disjoint(ca, cs, w[2], w[3]):
                        continue
                    must = frozenset(x for x in st.must if not (x[0] == 'cell' and x[1] == nm))
                    v = None
                    if ins.op == 'store' and w[2] == ca:
                        v = st.resolve(fn.val(ins.ops[0], ins.extra['ty']))
                        k = st.known(v)
                        if k is not None:
                            v = k
                        elif not any(a[0] in ('ite', 'b2i') for a in v.atoms()):
                            v = None
                    if v is not None:
                        must = must | {('cell', nm, v)}
                    st = State(st.facts, must, st.may)
        return more(st, ins) if more else st
    return hook


def cell(st, nm):
    for x in st.must:
        if x[0] == 'cell' and x[1] == nm:
            return x[2] if not isinstance(x[2], Poly) else st.known(st.resolve(x[2]))
    return None


def cells(st, nm):
    """[(state, constant)] of a followed cell, split by the conditions its value depends on"""
    for x in st.must:
        if x[0] == 'cell' and x[1] == nm and isinstance(x[2], Poly):
            todo, out = [st], []
            while todo:
                t = todo.pop()
                v = t.resolve(x[2])
                c = next((a[1] for a in v.atoms() if a[0] in ('ite', 'b2i')), None)
                if t.known(v) is None and c is not None and len(todo) < 16:
                    todo += [u for u in (assume(t, c), assume(t, Not(c))) if u is not None]
                else:
                    out.append((t, t.known(v)))
            return out
    return [(st, cell(st, nm))]


class Step:
    """one step of one role (or a start function) with its facts; states are kept apart by whether a
    violator has been recorded and by the value of the step counter"""

    def __init__(self, P, role, s):
        self.P, self.role, self.s = P, role, s
        self.start = s == 'start'
        self.fn = fn = P.start(role) if self.start else P.step(role, s)
        self.name = '%s start' % role if self.start else '%s step %d' % (role, s)
        self.F = P.of(role)
        self.ctx = fn.arg(0)
        self.argi = 1 if not self.start else (3 if role == 'peer' else None)
        self.argo = 3 if not self.start else (7 if role == 'tp' else None)
        self.input = fn.arg(self.argi) if self.argi is not None else None
        self.output = fn.arg(self.argo) if self.argo is not None else None
        self.sessionid = self.field('sessionid')
        if self.start and role == 'peer':
            self.sessionid = self.input + P.msg['sessionid'][0]
        cells = {}
        must = set()
        if not self.start:
            cells['step'] = (self.field('step'), self.F['step'][1])
            must.add(('cell', 'step', s))
        cl = self.field('cheater_len') if role == 'tp' and not self.start else None
        tsoff = P.msg['ts'][0]

        def more(st, ins):
            if ins.op == 'store':
                a = fn.val(ins.ops[1])
                if cl is not None and a == cl:
                    st = st.add('rec')
                elif P.mod.types.size(ins.extra['ty']) == 8:
                    v = fn.val(ins.ops[0], ins.extra['ty']).single()
                    if v and v[:3] == ('op', 'bswap', 64):
                        l = poly(v[3]).single()
                        if l and l[0] == 'ld' and l[2] == 8:
                            st = State(st.facts | {(('ts', l[1] - tsoff, a), True)}, st.must, st.may)
            elif ins.op == 'load' and cl is not None and 'rec' in st.must and fn.val(ins.ops[0]) == cl:
                st = assume(st, Not(Eq(fn.val(('loc', ins.name), ins.ty))))
            return st
        self.hook = cellhook(fn, cells, more)
        self.track = lambda st: ('rec' in st.may, cell(st, 'step'))
        self.init = State(must=frozenset(must))
        if s == 7:
            # the dispute step is entered only with complaints (decided by P07)
            self.init = assume(self.init, Not(Eq(self.num('complaints_len'))))
        self._facts = None
        self._all = None
        self._tests = None

    def field(self, nm):
        if nm not in self.F:
            raise Broken('field %s vanished from the %s state' % (nm, self.role))
        return self.ctx + self.F[nm][0]

    def ptr(self, nm):
        """contents of a pointer field at entry"""
        return poly(('ld', self.field(nm), 8, None, True))

    def num(self, nm):
        return poly(('ld', self.field(nm), self.F[nm][1], None, False))

    @property
    def facts(self):
        if self._facts is None:
            self._facts = Facts(self.fn, self.hook, self.track, self.init)
        return self._facts

    def senders(self, M):
        """what the sender named by the message at M is compared with"""
        fn = self.fn
        if self._tests is None:
            self._tests = State(frozenset(l for b in fn.rpo for s in fn.succ(b) for l in flow.literals(fn.edge_cond(b, s)) if l[1] and l[0][0] == 'eq'))
        out = {x for x in Known(self.P, self, self._tests, M).frm if not any(a[0] == 'ld' for a in all_atoms(x))}
        for i in fn.calls('crypto_sign_verify_detached'):
            if fn.args(i)[0] == M:
                for st in self.facts.states_before(i):
                    out.update(Known(self.P, self, st, M).frm)
        return out

    @property
    def all(self):
        """facts including what completed loops established for every iteration"""
        if self._all is None:
            self._all = flow.forall_facts(self.fn, self.hook, self.track, self.init, lambda st: 'rec' in st.may)
        return self._all

    def states(self, ins, strong=False):
        if not strong:
            return self.facts.states_before(ins)
        ks = [self.fn.ivinfo[h]['k'] for h in self.fn.loopsof.get(ins.block.name, ())]
        return [flow.instantiate(s, ks) for s in self.all.states_before(ins)]

    def fieldname(self, addr):
        """name of the state field an address (or the pointer it was loaded from) belongs to, and the
        offset from the start of the field's contents"""
        b, off = self.fn.base(addr)
        if b is None:
            return None, None
        if poly(b) == self.ctx:
            c = off.const()
            if c is not None:
                for nm, (o, sz) in self.F.items():
                    if o <= c < o + max(sz, 1):
                        return nm, off - o
            return None, off
        if b[0] == 'ld' and self.fn.base(b[1])[0] is not None and poly(self.fn.base(b[1])[0]) == self.ctx:
            c = (b[1] - self.ctx).const()
            for nm, (o, sz) in self.F.items():
                if o == c:
                    return nm, off
        if b[0] == 'ld':
            # element of a pointer table kept in the state
            nm, o = self.fieldname(b[1])
            if nm:
                return nm + '[]', o
        return None, off


# ---------------------------------------------------------------- messages
def solve(st, atom):
    """polynomials known equal to the atom"""
    out = []
    for f, pol in st.facts:
        if pol and f[0] == 'eq' and atom in f[1].aset():
            c = f[1].coef(atom)
            if c in (1, -1):
                x = poly(atom) - f[1] * c
                if atom not in all_atoms(x):
                    out.append(x)
    return out


def strip(st, bound=None):
    """state in which generalised facts are available for one arbitrary element of each loop"""
    new = set()
    drop = set()
    work = [f for f in st.facts if f[0][0] == 'all']
    while work:
        f = work.pop()
        _, k, B, g = f[0]
        if bound is not None and B != bound:
            continue
        drop.add(k)
        new.add(g)
        if g[0][0] == 'all':
            work.append(g)
    keep = {f for f in st.facts if not (drop & all_atoms(f[0])) or f[0][0] == 'all'}
    return State(frozenset(keep | new), st.must, st.may)


class Known:
    """what a state knows about the message at address M"""

    def __init__(self, P, step, st, M):
        m = P.msg
        self.P, self.step, self.st, self.M = P, step, st, M
        self.verify = []
        self.session = False
        self.ltsig = []
        want = step.sessionid
        for f, pol in st.facts:
            if not pol or f[0] != 'eq':
                continue
            a = f[1].single()
            if a is None:
                a = (-f[1]).single()
            if a is None or a[0] != 'fn':
                continue
            if a[1] == 'crypto_sign_verify_detached':
                sig, dat, L, K = a[2][:4]
                if sig == M and dat == M + P.SIG:
                    self.verify.append((L, K))
                elif dat == M:
                    self.ltsig.append((sig, L, K))
            elif a[1] in flow.MEMCMP:
                n = a[2][2] if len(a[2]) > 2 else poly(32)
                x = {a[2][0], a[2][1]}
                if n.const() == m['sessionid'][1] and M + m['sessionid'][0] in x and want in x:
                    self.session = True
        if M + m['sessionid'][0] == want:
            self.session = True
        self.len = self.get('len')
        self.msgno = self.get('msgno')
        self.frm = self.get('from')
        self.to = self.get('to')
        self.ts = [f[2] for f, pol in st.facts if f[0] == 'ts' and pol and f[1] == M]

    def get(self, nm):
        off, size = self.P.msg[nm]
        out = []
        addr = self.M + off
        for f, pol in self.st.facts:
            if not pol or f[0] != 'eq':
                continue
            for a in f[1].aset():
                t = a
                sw = False
                if t[0] == 'op' and t[1] == 'bswap':
                    t = poly(t[3]).single()
                    sw = True
                if t and t[0] == 'ld' and t[1] == addr and t[2] == size:
                    c = f[1].coef(a)
                    if c in (1, -1):
                        x = poly(a) - f[1] * c
                        if a in all_atoms(x):
                            continue
                        if size == 4 and not sw:
                            k = x.const()
                            s = x.single()
                            if k is not None:
                                x = poly(int.from_bytes((k % 2 ** 32).to_bytes(4, 'little'), 'big'))
                            elif s and s[0] == 'op' and s[1] == 'bswap':
                                x = poly(s[3])
                            else:
                                continue
                        out.append(x)
        return out


def candidates(P, fn, argi):
    """addresses in argument argi the code treats as messages: {M: first instruction}"""
    out = {}

    def add(M, ins):
        if fn.within(M, argi):
            out.setdefault(M, ins)
    for ins in fn.calls('crypto_sign_verify_detached', *flow.MEMCMP):
        a = fn.args(ins)
        if ins.callee == 'crypto_sign_verify_detached':
            add(a[0], ins)
            add(a[1] - P.SIG, ins)
        else:
            for x in a[:2]:
                add(x - P.msg['sessionid'][0], ins)
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op == 'load' and P.mod.types.size(ins.ty) == 4:
                add(fn.val(ins.ops[0]) - P.msg['len'][0], ins)
    return out
