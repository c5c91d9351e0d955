"""P32 connections to servers are verified and responses attributed to their server"""
TECHNIQUE = 'abstract interpretation of the Python syntax tree (objects with attributes, elements tied to their position, branch facts, typestate of TLS contexts and connections)'
NOTE = 'all configurations, message sizes, orders of arrival and processing functions; the standard library is taken as documented'
import ast, os
import build
from pyobj import Interp, St, NONE, contains

ME = ('self',)
PEERS = ('attr', ME, 'peers')
FAIL = ('c', b'\x00\x04fail')


def A(n):
    return ('attr', ME, n)


def eq(a, b):
    return ('cmp', 'Eq', a, b)


def C(v):
    return ('c', v)


class Ctx:
    pass


def check(R):
    R.rule('tls', 'a peer without a certificate of its own is reached only over TLS 1.2 or later, certificate required, system roots, name of the peer checked')
    R.rule('typed', 'a TLS peer is reached over TLS whatever its configuration, other kinds of connection are refused')
    R.rule('state', 'a peer counts as connected only once the connection to its own address stands, and is not connected twice')
    R.rule('read', 'reading takes no more than asked for, from a connected peer, and less only if the other end closed, which is noted')
    R.rule('send', 'a message is sent whole, to the peer meant, a broadcast to every peer')
    R.rule('config', 'each peer gets its own name, address, kind and certificate')
    R.rule('attribute', 'a response is recorded only for the peer it was read from, with the expected size')
    R.rule('failure', 'a failure notice is never passed on as a response')
    R.rule('result', 'gathering gives one entry per peer in their order, once enough peers answered, and not if all failed')
    rel = 'python/pyoprf/multiplexer.py'
    path = os.path.join(build.REPO, rel)
    R.sources = [path]
    if not os.path.exists(path):
        return R.broken(rel + ' is gone')
    X = Ctx()
    X.R, X.rel = R, rel
    X.tree = ast.parse(open(path).read())
    I = Interp(X.tree)
    gone = [c + '.' + m for c, ms in (('Peer', ('__init__', 'connect', 'read', 'send')), ('Multiplexer', ('__init__', 'connect', 'send', 'broadcast', 'gather'))) for m in ms
            if m not in I.classes.get(c, {})]
    if gone:
        return R.broken('%s: %s is gone' % (rel, gone[0]))
    peer(X)
    read(X)
    mux(X)
    gather(X)
    for r, n in (('tls', 1), ('typed', 1), ('state', 2), ('read', 2), ('send', 3), ('config', 4), ('attribute', 2), ('failure', 1), ('result', 2)):
        R.floor(r, n)


def where(X, n, f):
    return '%s:%d (%s)' % (X.rel, getattr(n, 'lineno', 0), f)


# ------------------------------------------------------------------ TLS
def context(f, a, kw):
    """properties of a new context, or None"""
    if f == ('name', 'ssl.create_default_context'):
        server = not a and 'purpose' not in kw or (a[:1] or (kw.get('purpose'),))[0] == ('name', 'ssl.Purpose.SERVER_AUTH')
        own = len(a) > 1 or any(k in kw and kw[k] != NONE for k in ('cafile', 'capath', 'cadata'))
        return dict(verify_mode=('name', 'ssl.CERT_REQUIRED' if server else 'ssl.CERT_NONE'), check_hostname=C(server), roots=C(server and not own), extra=C(own))
    if f == ('name', 'ssl.SSLContext'):
        p = a[0] if a else kw.get('protocol')
        client = p == ('name', 'ssl.PROTOCOL_TLS_CLIENT')
        return dict(verify_mode=('name', 'ssl.CERT_REQUIRED' if client else 'ssl.CERT_NONE'), check_hostname=C(client), roots=C(False), extra=C(False))
    if f[0] == 'name' and f[1].startswith('ssl._create'):
        return dict(verify_mode=('name', 'ssl.CERT_NONE'), check_hostname=C(False), roots=C(False), extra=C(False))
    return None


MODES = {('c', 2): ('name', 'ssl.CERT_REQUIRED'), ('name', 'ssl.VerifyMode.CERT_REQUIRED'): ('name', 'ssl.CERT_REQUIRED')}
NEW = {('name', 'ssl.TLSVersion.TLSv1_2'), ('name', 'ssl.TLSVersion.TLSv1_3')}


def verdict(s, ctx, host):
    """what is wrong with a TLS connection made now"""
    g = lambda n: s.heap.get((ctx, n))
    m = g('verify_mode')
    if MODES.get(m, m) != ('name', 'ssl.CERT_REQUIRED'):
        return 'the certificate of the server is not required'
    if g('check_hostname') != C(True):
        return 'the name in the certificate is not checked'
    if g('minimum_version') not in NEW:
        return 'versions before TLS 1.2 are not ruled out'
    if g('roots') != C(True):
        return 'certificates are not checked against the system roots'
    if g('extra') != C(False):
        return 'other certificates than those of the system are trusted'
    if host != ('sub', A('address'), C(0)):
        return 'the name checked is not that of the peer'
    return ''


def sockets(X, log):
    def hook(I, s, f, a, kw, n):
        site = (n.lineno, n.col_offset) + tuple(I.stack[1:])

        def give(o, **at):
            for k, v in at.items():
                s2[0] = s2[0].set(o, k, v)
            return [(s2[0], o)]
        s2 = [s]
        if f[0] == 'setattr':
            o, v = a
            if o[0] == 'obj' and o[1] == 'ctx' and f[1] == 'check_hostname' and v == C(True) and s.heap.get((o, 'verify_mode')) == ('name', 'ssl.CERT_NONE'):
                return s.set(o, 'verify_mode', ('name', 'ssl.CERT_REQUIRED'))
            if o == ME and f[1] == 'state':
                log.append(('state', n, s, v))
            return None
        if f[0] == 'setitem':
            return None
        c = context(f, a, kw)
        if c is not None:
            return give(('obj', 'ctx', site), minimum_version=NONE, **c)
        if f == ('name', 'socket.socket'):
            return give(('obj', 'sock', site), connected=NONE)
        if f == ('name', 'socket.create_connection'):
            return give(('obj', 'sock', site), connected=a[0] if a else kw.get('address', NONE))
        if f[0] == 'attr':
            o, m = f[1], f[2]
            if o[0] == 'obj' and o[1] == 'ctx':
                if m == 'load_default_certs' or m == 'set_default_verify_paths':
                    return [(s.set(o, 'roots', C(True)), NONE)]
                if m == 'load_verify_locations':
                    return [(s.set(o, 'extra', C(True)), NONE)]
                if m == 'wrap_socket':
                    k = a[0] if a else kw.get('sock')
                    host = kw.get('server_hostname', a[6] if len(a) > 6 else NONE)
                    hs = kw.get('do_handshake_on_connect', C(True))
                    there = s.heap.get((k, 'connected'), NONE)
                    v = verdict(s, o, host) if there != NONE else None
                    return give(('obj', 'tls', site), ctx=o, host=host, connected=there, bad=C(v), handshake=hs, raw=k)
            if m == 'connect' and o != ME:
                t = s.set(o, 'connected', a[0] if a else NONE)
                if o[0] == 'obj' and o[1] == 'tls':
                    t = t.set(o, 'bad', C(verdict(s, s.heap[(o, 'ctx')], s.heap[(o, 'host')])))
                return [(t, NONE)]
            if m == 'connect_ex':
                return [(s, ('call', f, a, (), site))]
            if m == 'do_handshake' and o[0] == 'obj':
                return [(s.set(o, 'handshake', C(True)), NONE)]
        return None
    return hook


def peer(X):
    R = X.R
    kinds = [('SSL', True), ('SSL', False)]
    for t, own in kinds:
        I = Interp(X.tree)
        log = []
        I.hook = sockets(X, log)
        f0 = {(eq(A('type'), C(t)), True), (A('ssl_cert'), own), (eq(A('state'), C('connected')), False)}
        if not own:
            pass
        ends, _ = I.run('Peer', 'connect', f0)
        w = where(X, I.classes['Peer']['connect'], 'Peer.connect')
        if not ends:
            R.bad('typed', w, 'connecting to a TLS peer never succeeds')
        for s, v in ends:
            fd = s.heap.get((ME, 'fd'), A('fd'))
            tls = fd[0] == 'obj' and fd[1] == 'tls'
            R.ok(tls, 'typed', w, 'a TLS peer is connected without TLS')
            if tls:
                R.ok(s.heap.get((fd, 'connected')) == A('address'), 'state', w, 'the connection is not made to the address of the peer')
                R.ok(s.heap.get((fd, 'handshake')) == C(True), 'typed', w, 'the TLS handshake is left out')
                if not own:
                    b = s.heap.get((fd, 'bad'), C(None))[1]
                    R.ok(b == '', 'tls', w, 'without a certificate configured: %s' % (b or 'not connected'))
            R.ok(s.heap.get((ME, 'state')) == C('connected'), 'state', w, 'a peer is not marked as connected')
        for _, n, s, v in log:
            if v == C('connected'):
                fd = s.heap.get((ME, 'fd'), A('fd'))
                R.ok(s.heap.get((fd, 'connected'), NONE) != NONE, 'state', where(X, n, 'Peer.connect'), 'a peer is marked as connected before the connection stands')
    I = Interp(X.tree)
    I.hook = sockets(X, [])
    w = where(X, I.classes['Peer']['connect'], 'Peer.connect')
    ends, _ = I.run('Peer', 'connect', {(eq(A('state'), C('connected')), True)})
    R.ok(not ends, 'state', w, 'a connected peer is connected again')
    I = Interp(X.tree)
    I.hook = sockets(X, [])
    ends, _ = I.run('Peer', 'connect', {(eq(A('type'), C('SSL')), False), (eq(A('type'), C('TCP')), False), (eq(A('state'), C('connected')), False)})
    R.ok(not ends, 'typed', w, 'a connection of unknown kind is accepted')
    # what the peer is made of
    I = Interp(X.tree)
    ends, _ = I.run('Peer', '__init__')
    f = I.classes['Peer']['__init__']
    ps = [p.arg for p in f.args.args]
    w = where(X, f, 'Peer.__init__')
    for s, v in ends:
        for at, names in (('name', ('name',)), ('address', ('addr', 'address')), ('type', ('type',)), ('ssl_cert', ('ssl_cert',)), ('timeout', ('timeout',))):
            got = s.heap.get((ME, at))
            R.ok(got is not None and got[0] == 'arg' and got[1] in ps and got[1] in names, 'config', w, 'the %s of a peer is not the one given' % at)
        st = s.heap.get((ME, 'state'), NONE)
        R.ok(st[0] == 'c' and st != C('connected'), 'state', w, 'a new peer counts as connected')
    # sending
    I = Interp(X.tree)

    def hook(I, s, f, a, kw, n):
        if f[0] == 'attr' and f[1] == A('fd') and f[2] in ('sendall', 'send', 'write'):
            return s.add(('did', f[2], a), True)
    I.hook = hook
    f = I.classes['Peer']['send']
    msg = ('arg', f.args.args[1].arg)
    ends, _ = I.run('Peer', 'send')
    for s, v in ends:
        R.ok((('did', 'sendall', (msg,)), True) in s.facts and not any(x[0][0] == 'did' and x[0][1:] != ('sendall', (msg,)) for x in s.facts), 'send', where(X, f, 'Peer.send'), 'the message is not sent whole')


# ------------------------------------------------------------------ reading
def read(X):
    R = X.R
    I = Interp(X.tree)
    f = I.classes['Peer']['read']
    size = ('arg', f.args.args[1].arg)
    calls = []

    def hook(I, s, fv, a, kw, n):
        if fv[0] == 'attr' and fv[1] == A('fd') and fv[2] in ('recv', 'read', 'recv_into'):
            calls.append((n, s, fv[2], a))
    I.hook = hook
    ends, _ = I.run('Peer', 'read')
    w = where(X, f, 'Peer.read')

    def chunk(v):
        return v[0] == 'call' and v[1] in (('attr', A('fd'), 'recv'), ('attr', A('fd'), 'read'))

    def total(v):
        """v counts the bytes read so far"""
        if v == C(0):
            return True
        if v[0] == 'phi':
            xs = I.phis.get(v[1:], ())
            return bool(xs) and all(x == C(0) or x == v or x[0] == 'bin' and x[1] == 'Add' and v in x[2:] and any(size_of(y) for y in x[2:]) or size_of(x) and C(0) in xs and False for x in xs)
        if v[0] == 'bin' and v[1] == 'Add':
            return any(total(x) and size_of(y) for x, y in (v[2:], v[:1:-1]))
        if v[0] == 'call' and v[1] == ('name', 'len') and len(v[2]) == 1:
            return data(v[2][0])
        if v[0] == 'call' and v[1] == ('name', 'sum') and len(v[2]) == 1:
            m = v[2][0]
            return m[0] == 'map' and m[4] and all(size_of(x) or x[0] == 'call' and x[1] == ('name', 'len') for x in m[3]) or m[0] == 'call' and m[1] == ('name', 'map') and m[2][:1] == (('name', 'len'),)
        return False

    def size_of(v):
        return v[0] == 'call' and v[1] == ('name', 'len') and len(v[2]) == 1 and chunk(v[2][0])

    def data(v, seen=()):
        """v consists of what was read, in order"""
        if v in seen or v == C(b''):
            return True
        if v[0] == 'phi':
            return bool(I.phis.get(v[1:])) and all(data(x, seen + (v,)) for x in I.phis[v[1:]])
        if v[0] == 'bin' and v[1] == 'Add':
            return data(v[2], seen) and (chunk(v[3]) or data(v[3], seen))
        if v[0] == 'call' and v[1][0] == 'attr' and v[1][1] == C(b'') and v[1][2] == 'join' and len(v[2]) == 1:
            return 'list' if v[2][0][0] == 'obj' else False
        if v[0] == 'call' and v[1] in (('name', 'bytes'), ('name', 'bytearray')):
            return not v[2] or data(v[2][0], seen)
        return chunk(v)
    for n, s, m, a in calls:
        wh = where(X, n, 'Peer.read')
        R.ok(I.holds(s, eq(A('state'), C('connected'))) is True, 'read', wh, 'a peer that is not connected is read from')
        x = a[0] if a else NONE
        xs = x[2] if x[0] == 'call' and x[1] == ('name', 'min') else (x,)
        ok = any(y[0] == 'bin' and y[1] == 'Sub' and y[2] == size and total(y[3]) or y[0] == 'phi' and left(I, y, size, size_of) for y in xs)
        once = xs[0] == size and not any(isinstance(l, (ast.While, ast.For)) and any(z is n for z in ast.walk(l)) for l in ast.walk(f))
        R.ok(ok or once, 'read', wh, 'more may be read than what is left of the message')
    for s, v in ends:
        d = data(v)
        if d == 'list':
            items = s.heap.get((v[2][0], '#items'), frozenset())
            seq = s.heap.get((v[2][0], '#seq'), (('?',),))
            d = all(chunk(x) for _, x in items) and not any(p[0] == '?' for p in seq)
        R.ok(bool(d), 'read', w, 'what is returned is not what was read, in order')
        full = any(not pol and c[0] == 'cmp' and c[1] == 'Lt' and c[3] == size and total(c[2]) for c, pol in s.facts) \
            or any(pol and c[0] == 'cmp' and c[1] == 'Eq' and (total(c[2]) and c[3] == size or c[2] == size and total(c[3])) for c, pol in s.facts) \
            or any(not pol and c[0] == 'phi' and left(I, c, size, size_of) or c[0] == 'cmp' and c[1] == 'Lt' and c[2] == C(0) and left(I, c[3], size, size_of) and not pol for c, pol in s.facts)
        closed = s.heap.get((ME, 'state')) == C('disconnected') or any(a == 'state' and o == ME and x[0] == 'c' and x[1] != 'connected' for (o, a), x in s.heap.items())
        R.ok(full or closed, 'read', w, 'less than asked for is returned although the other end did not close, or without noting that it did')
        if closed and not full:
            end = any(pol and c[0] == 'cmp' and c[1] == 'Eq' and c[3] == C(0) and c[2][0] == 'call' and c[2][1] == ('name', 'len') or not pol and (chunk(c) or c[0] == 'lookup')
                      or pol and c[0] == 'cmp' and c[1] == 'Eq' and c[3] == C(b'') for c, pol in s.facts)
            R.ok(end, 'read', w, 'reading ends early although the other end did not close')


def left(I, v, size, size_of):
    """v counts down from the size asked for"""
    xs = I.phis.get(v[1:], ()) if v[0] == 'phi' else ()
    return bool(xs) and size in xs and all(x == size or x == v or x[0] == 'bin' and x[1] == 'Sub' and x[2] == v and size_of(x[3]) for x in xs)


# ------------------------------------------------------------------ the group of peers
def mux(X):
    R = X.R
    I = Interp(X.tree)
    f = I.classes['Multiplexer']['__init__']
    cfg = ('arg', f.args.args[1].arg)
    ends, _ = I.run('Multiplexer', '__init__')
    w = where(X, f, 'Multiplexer.__init__')
    for s, v in ends:
        ps = s.heap.get((ME, 'peers'), NONE)
        made, whole = [], False
        if ps[0] == 'map':
            made, whole = list(ps[3]), ps[4]
        elif ps[0] == 'obj':
            q = s.heap.get((ps, '#seq'), ())
            whole = len(q) == 1 and q[0][0] == 'map'
            made = [x for _, x in s.heap.get((ps, '#items'), ())]
        elif ps[0] == 'call' and ps[1] in (('name', 'list'), ('name', 'tuple')) and ps[2] and ps[2][0][0] == 'map':
            made, whole = list(ps[2][0][3]), ps[2][0][4]
        R.ok(whole and bool(made), 'config', w, 'the peers are not made one for each configured')
        for m in made:
            d = dict(m[2]) if m[0] == 'new' else {}
            k = d.get('name', NONE)
            ok = k[0] == 'el' and k[1] in (cfg, ('call', ('attr', cfg, 'keys'), (), (), ()))
            R.ok(ok, 'config', w, 'a peer does not get the name it is configured under')
            p = ('sub', cfg, k)

            def item(v, key):
                return v == ('sub', p, C(key)) or v[0] == 'call' and v[1] == ('attr', p, 'get') and v[2][:1] == (C(key),)
            a = d.get('addr', d.get('address', NONE))
            R.ok(a[0] == 'tup' and len(a[1]) == 2 and item(a[1][0], 'host') and item(a[1][1], 'port'), 'config', w, 'a peer does not get its configured address')
            t = d.get('type', NONE)
            R.ok(item(t, 'type') and (t[0] == 'sub' or t[2][1:] == (C('SSL'),)) or t == C('SSL'), 'config', w, 'a peer is not a TLS peer unless configured otherwise')
            c = d.get('ssl_cert', NONE)
            R.ok(item(c, 'ssl_cert') and (c[0] == 'sub' or c[2][1:] in ((), (NONE,))), 'config', w, 'a peer gets a certificate that is not configured for it')
    for m in ('connect', 'broadcast', 'close'):
        if m not in I.classes['Multiplexer']:
            continue
        I = Interp(X.tree)
        f = I.classes['Multiplexer'][m]
        args = tuple(('arg', p.arg) for p in f.args.args[1:2]) if m == 'broadcast' else ()
        meth = {'broadcast': 'send'}.get(m, m)
        seen = []

        def hook(I, s, fv, a, kw, n):
            if fv[0] == 'attr' and fv[2] == meth and fv[1] != ME:
                if fv[1] == ('name', 'super'):
                    return None
                return [(s.add(('did', fv[1], a), True), NONE)]

        def end(n, it, tag, ends, early):
            if it is not None and any(c[0] == 'did' for s in ends for c, _ in s.facts):
                p = ('el', PEERS, tag)
                seen.append((n, not early and all({c for c, _ in s.facts if c[0] == 'did'} == {('did', p, args)} for s in ends)))
        I.hook, I.loopend = hook, end
        ends, _ = I.run('Multiplexer', m)
        # a comprehension or a call of itself over all peers counts as well
        R.ok(len(seen) >= 1 and all(ok for _, ok in seen[-1:]), 'send' if m == 'broadcast' else 'state', where(X, f, 'Multiplexer.' + m), 'not every peer is reached by %s' % m)
    I = Interp(X.tree)
    f = I.classes['Multiplexer']['send']
    idx, msg = (('arg', p.arg) for p in f.args.args[1:3])

    def hook(I, s, fv, a, kw, n):
        if fv[0] == 'attr' and fv[2] == 'send' and fv[1] != ME:
            return [(s.add(('did', fv[1], a), True), NONE)]
    I.hook = hook
    ends, _ = I.run('Multiplexer', 'send')
    for s, v in ends:
        R.ok({c for c, _ in s.facts if c[0] == 'did'} == {('did', ('sub', PEERS, idx), (msg,))}, 'send', where(X, f, 'Multiplexer.send'), 'the message does not go to the peer meant')
    if '__getitem__' in I.classes['Multiplexer']:
        f = I.classes['Multiplexer']['__getitem__']
        for s, v in Interp(X.tree).run('Multiplexer', '__getitem__')[0]:
            R.ok(v == ('sub', PEERS, ('arg', f.args.args[1].arg)), 'send', where(X, f, 'Multiplexer.__getitem__'), 'another peer is given than the one asked for')


def gather(X):
    R = X.R
    I = Interp(X.tree)
    f = I.classes['Multiplexer']['gather']
    names = [p.arg for p in f.args.args]
    size, proc = ('arg', names[1]), ('arg', 'proc')
    stores = []

    def source(v):
        """the packet v is, or is made of by the processing function"""
        if v[0] == 'call' and v[1] == proc and len(v[2]) == 1 and not v[3]:
            v = v[2][0]
        if v[0] == 'call' and v[1][0] == 'attr' and v[1][2] == 'read':
            return v
        return None

    def hook(I, s, fv, a, kw, n):
        if fv[0] == 'setitem' and a[0][0] == 'obj':
            stores.append((n, s, a[0], a[1], a[2]))
        if fv[0] == 'attr' and fv[2] == 'setdefault' and fv[1][0] == 'obj':
            stores.append((n, s, fv[1], a[0], a[1]))
    counts = {}

    def end(n, it, tag, ends, early):
        # variables that change only for recorded responses that are not failures
        if it is not None and it[0] == 'call' and it[1][0] == 'attr' and it[1][1][0] == 'obj' and it[1][2] in ('values', 'items'):
            for e in ends:
                for v, x in e.env.items():
                    p = ('phi', tag, v)
                    counts.setdefault(p, it[1][1])
                    if x != p and not any(not pol and c[0] == 'cmp' and c[1] == 'Eq' and c[3] == NONE and contains(c[2], it[1][1]) for c, pol in e.facts):
                        counts[p] = None
    I.hook, I.loopend = hook, end
    ends, _ = I.run('Multiplexer', 'gather')
    w = where(X, f, 'Multiplexer.gather')
    boxes = set()
    for n, s, o, k, v in stores:
        if v != NONE and source(v) is not None:
            boxes.add(o)
    for n, s, o, k, v in stores:
        if o not in boxes:
            continue
        wh = where(X, n, 'Multiplexer.gather')
        if v == NONE:
            R.ok(k[0] == 'ix' and k[1] == PEERS, 'attribute', wh, 'a failure is recorded for something else than a peer')
            continue
        p = source(v)
        R.ok(p is not None, 'attribute', wh, 'something else than a response is recorded')
        if p is None:
            continue
        who = p[1][1]
        R.ok(k[0] == 'ix' and k[1] == PEERS and who == ('el', PEERS, k[2]), 'attribute', wh, 'a response is recorded for another peer than it was read from')
        R.ok(p[2] == (size,), 'attribute', wh, 'a response of another size than expected is read')
        if isinstance(k[2], tuple) and k[2][0] == 'in' and k[2][1] in boxes:
            continue    # handed on from where it was recorded first
        R.ok(I.holds(s, eq(p, FAIL)) is False, 'failure', wh, 'a failure notice may be recorded as a response')
        if v != p:
            R.ok(I.holds(s, proc) is True or I.holds(s, eq(proc, NONE)) is False, 'attribute', wh, 'a response is processed although no processing is asked for')
        else:
            R.ok(I.holds(s, proc) is False or I.holds(s, eq(proc, NONE)) is True, 'attribute', wh, 'a response is recorded without the processing asked for')
    if not boxes:
        R.bad('attribute', w, 'no responses are recorded')
    for s, v in ends:
        v = v[2][0] if v[0] == 'call' and v[1] in (('name', 'list'), ('name', 'tuple')) and v[2] else v
        if v[0] == 'obj' and v not in boxes:
            q = s.heap.get((v, '#seq'), ())
            v = q[0] if len(q) == 1 else v
        it = v[1] if v[0] == 'map' else None
        ok = False
        if it is not None and v[4]:
            tag = v[2]
            ix = ('ix', PEERS, tag)
            ok = over(it) and all(x[0] == 'lookup' and x[1] in boxes and x[2] == ix and x[3] == NONE or x == NONE or direct(x, boxes, ix) for x in v[3]) \
                and any(x != NONE for x in v[3])
        elif v in boxes:
            ok = v[1] == 'list' and s.heap.get((v, '#times')) == ('call', ('name', 'len'), (PEERS,), (), ())
        R.ok(ok, 'result', w, 'what is returned is not one entry per peer in their order')
        n = ('arg', 'n')
        have = [('call', ('name', 'len'), (b,), (), ()) for b in boxes]
        want = {n, ('call', ('name', 'len'), (PEERS,), (), ())}
        enough = any(not pol and c[0] == 'cmp' and c[1] == 'Lt' and c[2] in have and (c[3] in want) or pol and c[0] == 'cmp' and c[1] == 'Eq' and c[2] in have and c[3] in want for c, pol in s.facts)
        lens = ('call', ('name', 'len'), (PEERS,), (), ())
        if enough and any(not pol and c[0] == 'cmp' and c[1] == 'Lt' and c[2] in have and c[3] == lens for c, pol in s.facts):
            pass
        elif enough and I.holds(s, eq(n, NONE)) is True:
            enough = False
        R.ok(enough, 'result', w, 'gathering ends before enough peers answered')
        failed = any(not pol and mentions(c, boxes) and (c[0] == 'cmp' and c[1] == 'Eq' or c[0] == 'call' and c[1] == ('name', 'all')) or pol and mentions(c, boxes) and c[0] in ('call', 'map') for c, pol in s.facts)
        failed = failed or any(counts.get(p) in boxes and (not pol and c == eq(p, C(0)) or pol and c in (p, ('cmp', 'Lt', C(0), p))) for c, pol in s.facts for p in counts)
        R.ok(failed, 'result', w, 'a result is given although every peer failed')


def over(it):
    """the iteration goes over all peers in their order"""
    lens = ('call', ('name', 'len'), (PEERS,), (), ())
    return it == ('call', ('name', 'range'), (lens,), (), ()) or it == PEERS or it[0] == 'call' and it[1] == ('name', 'enumerate') and it[2] == (PEERS,) and not it[3]


def direct(x, boxes, ix):
    return x[0] == 'lookup' and x[1] in boxes and x[2] == ix


def mentions(c, boxes):
    return any(contains(c, b) for b in boxes) and not (c[0] == 'cmp' and c[1] in ('Lt', 'In'))
