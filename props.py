"""What decides each property: the tasks (functions under contract) and the replay harnesses."""
TRUSTED = [
    'clang 18 lowering of /repo source to LLVM IR at -O0 (what the compiler drops: comments, unused templates, inactive preprocessor branches; the production optimiser is trusted)',
    'the verification-condition generator in vc/ (symbolic execution of LLVM IR with inductive loop invariants) and z3',
    'contracts on dependencies, assumed from their documentation: GMP mpz_*, libstdc++ containers/strings/exceptions, libc memory functions',
]
ASSUMPTIONS = ['partial correctness: termination is not proved', 'heap allocation succeeds', 'the C++ memory model below LLVM IR, and single-threaded execution of each function under contract']
def R(mode, flags=(), src='core.cpp', **k): return dict(src=src, mode='MODE_' + mode, flags=list(flags), **k)
N = [[True, False], [False, True]]
PROPS = {}
PROPS['P01'] = dict(tasks=[('verifier', 't_check', [], 5), ('verifier', 't_check', [N[0]]), ('verifier', 't_check', [N[1]])], replay=[R('VERIFY', procs=3)],
    trusted=['form decoding, challenge derivation and exponentiation through their contracts (each proved under P07, P09, P14), multiplication through its contract (bounded under P11)'])
PROPS['P02'] = dict(tasks=[('verifier', 't_withb', [], 8), ('verifier', 't_withb', [N[0]]), ('verifier', 't_withb', [N[1]])], replay=[R('WITHB', procs=3)])
PROPS['P03'] = dict(tasks=[('verifier', 't_getb', [], 4), ('verifier', 't_getb', [N[0]]), ('verifier', 't_getb', [N[1]])], replay=[R('GETB', procs=3)])
PROPS['P08'] = dict(tasks=[('hashing', 't_creatediscriminant', [])] + [('hashing', 't_hashprime', [m], 5 * m) for m in (1, 2, 3, 4)], thorough_tasks=[('hashing', 't_hashprime', [5], 30)], replay=[R('HASH', procs=3)])
PROPS['P09'] = dict(tasks=[('hashing', 't_getb', []), ('hashing', 't_hashprime', [2], 10)], replay=[R('HASH', procs=3)])

ALLN = [('verifier', f, a) for f in ('t_check', 't_withb', 't_getb') for a in ([N[0]], [N[1]], [])]
PROPS['P04'] = dict(tasks=ALLN, replay=[R('TOTAL', procs=4)], trusted=['form decoding and exponentiation through their contracts (proved under P07, P14), composition through its contract (bounded under P11, P12)'])
PROPS['P05'] = dict(tasks=[('util', 't_seedcheck', [])], replay=[R('CDCHECK', procs=4)])
XG = 'mpz_xgcd_partial through its contract (the Bezout identity and the size of the cofactor): bounded by the SER and GROUP harnesses in the quick tier'
ENC = ('t_export', 't_serialize_only', 't_deserialize_only', 't_compr', 't_serialize', 't_verify_canon')
PROPS['P06'] = dict(tasks=[('lemmas', 't_lean', ['Arith.lean'])] + [('encode', f, []) for f in ENC + ('t_fits', 't_serializeform', 't_fields_back', 't_deserialize_back')] + [('encode', 't_decompr_back', [], 80), ('encode', 't_deserializeform', [True], 10)] + [('formops', f, []) for f in ('t_from_abd', 't_reduce')],
    replay=[R('SER', procs=4)], trusted=[XG, 'every class of forms holds exactly one reduced form (classical); reduction stays in the class (P13)', 'mpz_import of n bytes reads their little-endian sum, so it gives back what mpz_export wrote (lemma le_bytes in lemmas/)'])
PROPS['P07'] = dict(tasks=[('encode', f, []) for f in ENC] + [('encode', 't_decompr', [], 20), ('encode', 't_deserialize', [], 10), ('encode', 't_deserializeform', [], 10)] + [('formops', f, []) for f in ('t_from_abd', 't_is_reduced', 't_reduce')],
    replay=[R('SER', procs=4)], trusted=[XG])
PROPS['P13'] = dict(tasks=[('formops', f, []) for f in ('t_normalize', 't_reduce_step', 't_reduce', 't_is_reduced', 't_from_abd', 't_compare')], replay=[R('GROUP', ['-DG_REDUCE'], procs=4)], level='exploration')
PROPS['P11'] = dict(tasks=[('formops', f, []) for f in ('t_inverse', 't_from_abd', 't_reduce')] + [('formops', 't_principal', [w]) for w in ('identity', 'generator')], replay=[R('GROUP', ['-DG_COMPOSE'], procs=4)], level='exploration')
PROPS['P17'] = dict(tasks=[('util', 't_tobytes', [64]), ('util', 't_tobytes', [32]), ('util', 't_frombytes', []), ('util', 't_bytestostr', []), ('util', 't_tobytesvec', []), ('util', 't_tovector', []), ('util', 't_totext', []), ('util', 't_fromtext', [])]
    + [('util', 't_fromvec', [k]) for k in ('vec', 'buf', 'words')] + [('util', 't_append', [k]) for k in ('vec', 'array')], replay=[R('BYTES')],
    trusted=['mpz_import and mpz_export (same order and word size) are inverses, mpz_set_str in base 0 reads what mpz_get_str in base 16 wrote behind 0x', 'std::vector and std::string operations through their contracts, output streams with hex, setw and setfill through theirs'])
PROPS['P18'] = dict(tasks=[('util', 't_cast', [])], replay=[R('BYTES')])

PROPS['P10'] = dict(tasks=[('lemmas', 't_lean', ['Arith.lean'])] + [('prime', f, []) for f in ('t_find_lucas_v', 't_bpsw', 't_miller_rabin', 't_find_pq', 't_is_vprp', 't_prime')], replay=[R('PRIME', procs=4)],
    trusted=['lemma lucas: the doubling identities of Lucas sequences (proved in lemmas/)'])
PROPS['P12'] = dict(tasks=[('formops', 't_from_abd', [])], replay=[R('GROUP', ['-DG_NUCOMP'], procs=4)], level='exploration')
PROPS['P14'] = dict(tasks=[('power', 't_fastpowform', []), ('power', 't_fastpow', [])], replay=[R('GROUP', ['-DG_POW'], procs=3)], trusted=['composition and doubling of forms through their contracts (P12, P13)'])
PROPS['P15'] = dict(tasks=[('lemmas', 't_lean', ['Arith.lean'])] + [('power', 't_generate', [], 90), ('power', 't_getblock', []), ('power', 't_proveslow', [], 8), ('power', 't_params', ['slow'], 6)], replay=[R('PROVE', procs=3)], trusted=['lemmas buckets and digits (proved in lemmas/)'])
PROPS['P16'] = dict(tasks=[('power', 't_getblock', []), ('power', 't_params', ['slow'], 6)], replay=[R('PROVE', procs=4)])

PROPS['P19'] = dict(tasks=[('bindings', f, []) for f in ('t_c_create', 't_c_prove', 't_c_verify', 't_c_delete', 't_py_create', 't_py_seedverify', 't_py_prove', 't_py_verify', 't_py_signed', 't_py_deser', 't_rs_create', 't_rs_verify', 't_rs_prove')] + [('bindings', 't_py_verify_n', [k]) for k in (0, 1, 2)],
    replay=[R('CAPI', procs=2), R('PY', src='pyreplay.py', procs=2)], trusted=['the library functions the bindings call, through their contracts (P01-P05, P07, P08, P15)', 'pybind11 argument conversion and exception translation, CPython, the rustc lowering and the C ABI between Rust and C++'])

PROPS['P20'] = dict(tasks=[('store', f, []) for f in ('t_one_iter', 't_one_ctor', 't_two_iter', 't_two_copy', 't_two_position', 't_two_increase', 't_two_large', 't_two_ctor', 't_add', 't_finished')]
    + [('store', 't_setform', [r]) for r in (1, 0)] + [('store', 't_fast_ctor', [n]) for n in (0, 1, 2, 7, 8)] + [('store', 't_fast_position', [8, b]) for b in range(8)] + [('store', 't_fast_position', a) for a in ([1, 0], [2, 1], [7, 6])]
    + [('store', 't_fast_iter', [n, 0], 2 * n * n) for n in (1, 2, 3, 5, 7, 8)] + [('store', 't_fast_iter', [8, 1]), ('store', 't_fill', [1]), ('store', 't_fill', [2], 6), ('store', 't_fill', [4], 20)],
    replay=[R('STORE', ['-DCHIA_DISABLE_ASM'], 'fast.cpp', procs=2)],
    trusted=['the fast reducer returns the reduced form of its argument (P13)', 'squarings and mutexes through their contracts; other threads appear as arbitrary changes allowed by the store invariant while a mutex is free', 'numbers of segments other than the listed 1, 2, 7 and 8 (7 in the tests, 8 in the client) are not proved'])

SEGCLS = ('OneWesolowskiProver', 'TwoWesolowskiProver', 'InterruptableProver')
PROPS['P21'] = dict(tasks=[('lemmas', 't_lean', ['Arith.lean']), ('power', 't_generate', ['segment'], 90), ('power', 't_generate', ['part'], 90), ('power', 't_getblock', ['fast']), ('power', 't_params', ['fast'], 6)]
    + [('segments', f, [c]) for f in ('t_ctor', 't_getform') for c in SEGCLS[:2]] + [('segments', f, [SEGCLS[2], b]) for f in ('t_ctor', 't_getform') for b in range(8)]
    + [('segments', 't_steps', [c]) for c in SEGCLS] + [('segments', 't_one', []), ('segments', 't_two', [0]), ('segments', 't_two', [1]), ('segments', 't_two', [2]), ('segments', 't_squaren', []), ('segments', 't_parallel', [])],
    replay=[R('PROVERS', ['-DCHIA_DISABLE_ASM'], 'fast.cpp', procs=3)],
    trusted=['composition, doubling and exponentiation of forms through their contracts (P12, P13, P14), challenge derivation and encoding through theirs (P06, P09), checkpoint stores through theirs (P20)', 'lemmas digits and buckets: the digit sum in Horner form over buckets is the product it stands for (proved in lemmas/)', 'threads are started and joined through contracts: the joined thread has run its function once'])
PROPS['P22'] = dict(tasks=[('manager', 't_prove', [], 30), ('manager', 't_worse', [])] + [('manager', 't_bucket', [i]) for i in range(8)],
    replay=[R('MANAGER', ['-DCHIA_DISABLE_ASM'], 'fast.cpp', procs=3)],
    trusted=['the event loop stores in done_segments[i][p] only the finished proof of the segment of length 2^(16+2i) that starts at p times that length (exercised by the MANAGER harness, not proved)', 'segment provers and checkpoint stores through their contracts (P20, P21), composition, exponentiation and encoding through theirs (P12, P14, P06)', 'the checkpoint after 2^16 j squarings is stored before that count is announced (P20)', 'other threads are modelled as arbitrary changes of the shared tables at each lock, wait and unlock that keep the tables well formed'])
PROPS['P23'] = dict(tasks=[('session', f, []) for f in ('t_iteration', 't_init', 't_writeproof', 't_finish', 't_session_one')] + [('session', 't_send', [k]) for k in ('n', 'one', 'two')] + [('util', 't_bytestostr', []), ('util', 't_tobytes', [64]), ('util', 't_tobytes', [32])],
    replay=[R('WIRE', ['-DCHIA_DISABLE_ASM'], 'session.cpp', procs=2), R('SESSION', ['-DCHIA_DISABLE_ASM'], 'session.cpp', procs=2)],
    trusted=['boost::asio::read fills the whole buffer or reports an error, boost::asio::write sends the whole buffer or throws', 'atoi of three characters: their value when all are digits, otherwise something between -99 and 999', 'the prover functions and the stores through their contracts (P20, P21, P22)', 'SessionTwoWeso and SessionFastAlgorithm are not under contract: SessionTwoWeso is bounded by the SESSION harness only', 'std::thread runs the function it is given once and join waits for it; a connection that breaks in mid-session ends the process (not part of the property)'])
PROPS['P24'] = dict(tasks=[('loop', 't_main', ['portable']), ('loop', 't_main', ['asm']), ('loop', 't_batch', ['nudupl']), ('loop', 't_batch', ['original']), ('formops', 't_orig_normalize', []), ('formops', 't_orig_reduce', []), ('formops', 't_orig_square', [])],
    replay=[R('LOOP', ['-DCHIA_DISABLE_ASM'], 'fast.cpp', procs=2), R('LOOP', ['-no-pie'], 'fast.cpp', procs=3, asm=True)],
    trusted=['repeated_square_fast (the phased x86 pipeline and its generated assembly): squares exactly as often as it returns, reports each squaring it did, and leaves the form alone when it returns the corruption mark; bounded by the LOOP harness on the generated assembly, not proved', 'doubling and reduction of forms through their contracts (P12, P13), the stores through theirs (P20)', 'fewer than 2^62 squarings in one run; the requested count is below 2^62'])
