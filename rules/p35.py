"""P35 inputs and session parameters are never modified"""
TECHNIQUE = 'write-effect analysis (points-to of every store and call) over inlined LLVM IR'
NOTE = 'all paths of every public operation, of session start and of every protocol step of both roles, successful or not'
from proto import *
from common import *

# what each operation is only given to read
INPUTS = {
    'oprf_Blind': (0,), 'oprf_Evaluate': (0, 1), 'oprf_Unblind': (0, 1), 'oprf_Finalize': (0, 2), 'voprf_hash_to_group': (0,), 'expand_message_xmd': (0, 2),
    'coeff': (2,), 'toprf_create_shares': (0,), 'toprf_Evaluate': (0, 1, 3), 'toprf_thresholdmult': (1,), 'toprf_thresholdcombine': (1,), 'toprf_3hashtdh': (0, 1, 2, 3),
    'dkg_verify_commitment': (4, 5), 'dkg_verify_commitments': (3, 4), 'dkg_finish': (1,), 'dkg_reconstruct': (1,),
    'toprf_mpc_mul_start': (0, 1), 'toprf_mpc_mul_finish': (1, 3), 'invertedVDMmatrix': (1,),
    'tpdkg_tp_input_size': (0,), 'tpdkg_tp_input_sizes': (0,), 'tpdkg_tp_output_size': (0,), 'tpdkg_peer_input_size': (0,), 'tpdkg_peer_output_size': (0,),
    'tpdkg_tp_peer_msg': (0, 1), 'tpdkg_tp_not_done': (0,), 'tpdkg_peer_not_done': (0,), 'tpdkg_cheater_msg': (0,),
    'tpdkg_start_tp': (4,), 'tpdkg_start_peer': (2, 3),
}
# what a session was started with; values: the steps that may still set it
FIXED = {'tp': {'n': (), 't': (), 'sessionid': (), 'ts_epsilon': (), 'sig_pk': (), 'sig_sk': (), 'peer_lt_pks': (), 'cheaters': (), 'cheater_max': (),
                'commitments': (), 'complaints': (), 'encrypted_shares': (), 'peer_sig_pks': (), 'last_ts': ()},
         'peer': {'n': (), 't': (), 'sessionid': (), 'ts_epsilon': (), 'tp_sig_pk': (), 'index': (0,), 'sig_pk': (0,), 'sig_sk': (0,), 'noise_pk': (0,), 'noise_sk': (0,),
                  'shares': (), 'xshares': (), 'commitments': (), 'complaints': (), 'my_complaints': (), 'noise_ins': (), 'noise_outs': (), 'peer_sig_pks': (),
                  'peer_noise_pks': (), 'last_ts': ()}}
# what was received and recorded; values: the steps that may write it (shares are no longer needed after the last step)
KEPT = {'tp': {'peer_sig_pks': (1,), 'peer_lt_pks': (), 'commitments': (4,), 'encrypted_shares': (5,), 'complaints': (6,)},
        'peer': {'peer_sig_pks': (1,), 'peer_noise_pks': (1,), 'commitments': (3, 4), 'xshares': (5, 9, 10), 'complaints': (6,), 'my_complaints': (6,)}}


def inputs(R, fn, name, args):
    roots = {}
    for i in args:
        b = fn.base(fn.arg(i))[0]
        roots[b] = i
    for i in args:
        R.saw('input', '%s argument %d' % (name, i))
    for w in fn.writes():
        b = w[1]
        if b is None:
            continue
        i = roots.get(b)
        if i is None and b[0] in ('phi', 'ite', 'ld'):
            i = next((x for x in args if fn.within(w[2], x)), None)
        if i is not None:
            R.bad('input', fn.where(w[0]), '%s: writes to %s, which it was only given to read' % (name, fn.argname(i)))


def check(R):
    R.rule('input', 'no store and no call writes through a pointer an operation was given its inputs by')
    R.rule('session', 'no step writes a state field that describes the session: group size, threshold, identifiers, keys, buffers')
    R.rule('kept', 'keys, commitments, shares and complaints recorded in one step are not overwritten in another')
    P = Proto()
    R.sources = P.sources
    mod = P.mod
    for name, args in INPUTS.items():
        if name not in mod.fns or not mod.fns[name].blocks:
            R.broken('%s is gone' % name)
            continue
        inputs(R, Fn(mod, name), name, args)
    for role, last in (('peer', 10), ('tp', 9)):
        F = P.of(role)
        for s in range(last + 1):
            S = Step(P, role, s)
            fn = S.fn
            inputs(R, fn, S.name, (1,))
            ctx = fn.base(S.ctx)[0]
            ws = [w for w in fn.writes() if w[1] == ctx]
            for nm, may in FIXED[role].items():
                if nm not in F:
                    R.broken('%s state has no %s' % (role, nm))
                    continue
                if s in may:
                    continue
                R.saw('session', '%s %s' % (S.name, nm))
                for w in ws:
                    if not fn.disjoint(S.field(nm), poly(F[nm][1]), w[2], w[3]):
                        R.bad('session', fn.where(w[0]), '%s: changes %s of a running session' % (S.name, nm))
            for w in fn.writes():
                if w[1] and w[1][0] == 'ld':
                    nm = S.fieldname(w[2])[0]
                    if nm in KEPT[role]:
                        R.ok(s in KEPT[role][nm], 'kept', fn.where(w[0]), '%s: overwrites the recorded %s' % (S.name, nm))
    R.floor('kept', 8)
    R.floor('input', 60)
    R.floor('session', 200)
