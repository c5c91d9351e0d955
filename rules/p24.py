"""P24 Structures and constants declared more than once agree"""
TECHNIQUE = 'comparison of type layouts: debug-info layouts of the C structures against layouts computed from the Python syntax tree and against each other; constants against the values the C front end gives their macros'
NOTE = 'every field of every mirrored structure, every Python constant named like a C macro, every structure type that more than one file declares'
from pyapi import *
import ir

SCALAR = {'c_int': ('i', True), 'c_uint': ('i', False), 'c_char_p': ('p', None), 'c_void_p': ('p', None)}


def check(R):
    R.rule('mirror', 'each field of a C structure has, in the Python structure describing it, a field at the same offset with the same size and kind')
    R.rule('order', 'fields of a Python structure describe exactly one C member each, or padding')
    R.rule('size', 'a Python structure covers the C structure; elements of arrays have the same size')
    R.rule('constant', 'Python constants have the value of the C macros they repeat')
    R.rule('declared', 'all declarations of a C structure type give it the same layout')
    R.rule('bytes', 'size macros of byte-wise interfaces are the sizes of the structures passed')
    B = Bindings()
    text, srcs = build.library()
    ntext, nsrcs = build.noise()
    R.sources = list(B.sources) + srcs + nsrcs
    mods = [ir.parse_module(text), ir.parse_module(ntext)]
    cs = mods[0].structs()
    pairs = mirrors(B, cs)
    for need in ('TP_DKG_PeerState', 'TP_DKG_TPState', 'TP_DKG_Cheater'):
        if need not in cs:
            R.broken('%s is gone' % need)
        elif not any(c == need for _, _, c, _ in pairs):
            R.broken('no Python structure describes %s' % need)
    for m, py, c, arr in pairs:
        compare(R, B, m, py, c, arr, mods[0], cs[c][0])
    constants(R, B)
    declared(R, mods)
    sizes(R, B, mods[0])
    R.floor('mirror', 40)
    R.floor('order', 40)
    R.floor('size', 3)
    R.floor('constant', 6)
    R.floor('declared', 8)
    R.floor('bytes', 2)


def mirrors(B, cs):
    """[(module, Python structure, C structure, used in arrays?)], by name and by what is passed to native code"""
    out = {}
    for m in B.modules:
        for py in m.structs:
            if py in cs:
                out[(m, py, py)] = False
        for f in m.roots():
            m.analyse(f)
            for e in m.events:
                d = B.protos.get(e.name)
                for p, a in zip(d.params if d else (), e.args):
                    c = p.type[-1] if p.ptr and p.type else None
                    if c not in cs:
                        continue
                    b = unwrap(a)
                    while isinstance(b, tuple) and b[0] == 'byref':
                        b = b[1]
                    if isinstance(b, tuple) and b[0] in ('mem', 'sobj', 'arr') and len(b) > 2 and isinstance(b[2], tuple) and b[2][0] == 'structty':
                        k = (m, b[2][1], c)
                        out[k] = out.get(k, False) or b[0] == 'arr'
    return [(m, py, c, arr) for (m, py, c), arr in out.items()]


def kind(mod, ref):
    """what a C type holds: i(nteger), p(ointer), e(num), a(rray) or s(tructure)"""
    m = mod.md.get(ref)
    if m is None:
        return 'v', None
    k, f, _ = m
    if k == 'DIBasicType':
        return 'i', 'unsigned' not in f.get('encoding', '') and 'boolean' not in f.get('encoding', '')
    tag = f.get('tag')
    if k == 'DIDerivedType':
        return ('p', None) if tag == 'DW_TAG_pointer_type' else kind(mod, f.get('baseType'))
    return {'DW_TAG_array_type': 'a', 'DW_TAG_enumeration_type': 'e'}.get(tag, 's'), None


def pykind(t):
    if t[0] == 'ptrty':
        return 'p', None
    if t[0] in ('arrty', 'structty'):
        return 'a', None
    if t[1] in SCALAR:
        return SCALAR[t[1]]
    return 'i', not (t[1].startswith('c_u') or t[1] in ('c_size_t', 'c_bool'))


def compare(R, B, m, py, c, arr, mod, C):
    fs, pack, node = m.structs[py]
    l = m.layout(('structty', py))
    w = '%s:%d %s' % (m.rel, node.lineno, py)
    if l is None:
        R.bad('size', w, 'the layout of %s cannot be computed' % py)
        return
    total, _, offs = l
    types = {nm[1] if isinstance(nm, tuple) else nm: t for nm, t in fs}
    at = {}
    for nm, (o, z) in offs.items():
        at.setdefault(o, (nm, z))
    used = set()
    for nm, (o, z, ty) in C['members'].items():
        have = offs.get(nm)
        p = nm if have else at.get(o, (None, 0))[0]
        if have is None:
            have = (o, at[o][1]) if o in at else None
        if not R.ok(have == (o, z), 'mirror', w, 'the member %s of %s has %d bytes at offset %d, in Python %s' % (nm, c, z, o, '%d at %d' % (have[1], have[0]) if have else 'nothing')):
            continue
        used.add(p)
        k, sg = kind(mod, ty)
        pk, psg = pykind(types[p])
        same = k in ('e', 's') or (k == pk and (k != 'i' or sg == psg))
        R.ok(same, 'mirror', w, 'the member %s of %s is a %s, in Python a %s' % (nm, c, show_kind(k, sg), show_kind(pk, psg)))
    for nm, (o, z) in offs.items():
        if nm in used:
            R.saw('order', w)
            continue
        clash = [x for x, (o2, z2, _) in C['members'].items() if o < o2 + z2 and o2 < o + z]
        R.ok(not clash, 'order', w, 'the field %s of %s lies over %s of the C structure' % (nm, py, ', '.join(clash)))
    end = max(o + z for o, z, _ in C['members'].values())
    if arr:
        R.ok(total.const() == C['size'], 'size', w, 'elements of an array of %s have %d bytes, in Python %s' % (c, C['size'], total.const()))
    else:
        R.ok(total.const() >= end, 'size', w, '%s has %d bytes, in Python %s' % (c, end, total.const()))


def show_kind(k, s):
    return {'i': 'signed number' if s else 'unsigned number', 'p': 'pointer', 'a': 'array', 'v': 'nothing'}.get(k, 'structure')


def constants(R, B):
    names = {}
    for m in B.modules:
        for nm, v in m.globals.items():
            v = unwrap(v)
            if isinstance(v, Poly) and v.const() is not None and re.match(r'^[A-Za-z]\w*$', nm):
                names.setdefault(nm, []).append((m, v.const()))
    vals = cdecl.values([], sorted(names))
    for nm, xs in sorted(names.items()):
        for m, v in xs:
            if nm in vals:
                R.ok(vals[nm] == v, 'constant', '%s %s' % (m.rel, nm), '%s is %d in C and %d in Python' % (nm, vals[nm], v))


def signature(mod, ref, depth=0):
    m = mod.md.get(ref)
    if m is None or depth > 12:
        return ('void',)
    k, f, els = m
    if k == 'DIBasicType':
        return ('basic', f.get('size'), f.get('encoding'))
    tag = f.get('tag')
    if k == 'DIDerivedType':
        if tag == 'DW_TAG_pointer_type':
            return ('pointer',)
        return signature(mod, f.get('baseType'), depth + 1)
    if tag == 'DW_TAG_array_type':
        return ('array', f.get('size'), signature(mod, f.get('baseType'), depth + 1))
    if tag == 'DW_TAG_enumeration_type':
        return ('enum', f.get('size'))
    x = mod._members(ref)
    return (tag, x['size'], tuple((o, z, signature(mod, t, depth + 1)) for o, z, t in x['members'].values()))


def declared(R, mods):
    seen = {}
    for mod in mods:
        for nm, xs in mod.structs().items():
            for x in xs:
                if x['members'] and x['file'] and x['file'].startswith(build.REPO):
                    s = (x['size'], tuple((o, z, signature(mod, t)) for o, z, t in x['members'].values()))
                    seen.setdefault(nm, []).append((x, s, {n: v[:2] for n, v in x['members'].items()}))
    for nm, xs in sorted(seen.items()):
        x0, s0, m0 = xs[0]
        for x, s, mm in xs:
            w = '%s:%d %s' % (os.path.relpath(x['file'], build.REPO), x['line'], nm)
            same = s == s0 and all(mm[n] == m0[n] for n in mm if n in m0)
            R.ok(same, 'declared', w, '%s is laid out as in %s' % (nm, os.path.relpath(x0['file'], build.REPO)))


def sizes(R, B, mod):
    for nm in ('TOPRF_Share', 'TOPRF_Part'):
        c = cdecl.values([], [nm + '_BYTES']).get(nm + '_BYTES')
        if c is None:
            continue
        for x in mod.structs().get(nm, ()):
            if x['members']:
                R.ok(x['size'] == c, 'bytes', '%s:%d %s' % (os.path.relpath(x['file'], build.REPO), x['line'], nm), '%s has %d bytes, its interface size is %d' % (nm, x['size'], c))
