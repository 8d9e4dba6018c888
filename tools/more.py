prop('P10', 'The primality test never errs on numbers derivation uses',
     'For every odd integer n of at least 239 the primality test answers prime exactly when n shares no factor with the products of small primes it divides by (at least all odd primes below 239, and no larger ones for n below 2^64), passes the strong probable-prime test to base 2, and passes the Lucas-V probable-prime test for the first of 5, -7, 9, -11, ... of magnitude below 1000 whose Jacobi symbol is -1. So it accepts every prime for which such a parameter exists and rejects every composite number on which the Baillie-PSW test is right, which includes every composite below 2^64. The number is not changed.',
     I, 'all odd integers from 239 upwards', 'Tests check the primality of a few derived discriminants; a test that errs for one residue class or one size would change consensus values that no fixed vector reaches.',
     ['src/primetest.h', 'src/pprods.h', 'src/integer_common.h'], [('is_prime_bpsw', 'src/primetest.h'), ('miller_rabin / find_pq / find_lucas_v', 'src/primetest.h')])
prop('P11', 'Form multiplication, squaring and inversion are the class-group operations',
     'For every pair of reduced forms of one negative fundamental discriminant, multiplication returns the reduced form of the composition of their classes, squaring a form with coprime a and b returns the reduced form of its square, the inverse is the reduced form of the opposite class, and the identity and generator are the reduced forms (1,1,.) and (2,1,.). The operands are not changed.',
     I, 'all negative discriminants and all pairs of reduced forms, including equal, inverse, ambiguous and non-coprime ones',
     'Tests check a few identities on random forms; composition has gcd cases that random forms almost never reach.',
     ['src/vdf_new.h', 'src/integer_common.h'], [('multiply', 'src/vdf_new.h'), ('square', 'src/vdf_new.h'), ('form::inverse / identity / generator', 'src/vdf_new.h')])
prop('P12', 'Fast composition and doubling agree with the group',
     'For every pair of reduced forms of one negative discriminant with L the fourth root of its absolute value, the NUCOMP and NUDUPL routines store a positive definite form of the same discriminant in the class of the product, respectively the square. The operands are unchanged unless they are the destination, and the destination may be the same object as an operand.',
     I, 'all negative discriminants and pairs of reduced forms, including those taking the short branch, the partial-gcd branch and the common-factor branches',
     'The branch taken depends on sizes and gcds; random tests see the generic one.',
     ['src/nucomp.h', 'src/xgcd_partial.c'], [('nucomp_form', 'src/nucomp.h'), ('nudupl_form', 'src/nucomp.h'), ('mpz_xgcd_partial', 'src/xgcd_partial.c')])
prop('P13', 'Reduction returns the unique reduced form of the class',
     'For every positive definite form, reduction returns the form of the same class and discriminant with -a < b <= a <= c, and b >= 0 when a = c; the reducedness test answers true exactly for such forms (it may also accept b = -a); the fast reducer returns the same form, except that it may leave b = -a; building a form from a, b and the discriminant gives that reduced form or raises an exception when a is not positive or no integral c exists.',
     I, 'all positive definite forms of any size, however far from reduced', 'Off-by-one and tie cases (a = c, |b| = a) and long reduction chains do not occur in random tests.',
     ['src/vdf_new.h', 'src/Reducer.h'], [('reduce / normalize / reduce_impl', 'src/vdf_new.h'), ('PulmarkReducer::reduce', 'src/Reducer.h'), ('form::from_abd', 'src/vdf_new.h')])
prop('P14', 'Exponentiation computes the exact power',
     'Raising a form to a non-negative integer power n returns a form of the same discriminant in the class of the n-th power, for every n including zero and one; modular exponentiation returns a^b mod c for all 64-bit a and b and every positive modulus c, and refuses modulus zero. Operands and modulus are not changed.',
     I, 'all exponents, bases, moduli and discriminants', 'Window boundaries, leading and trailing zero bits and tiny exponents are sampled at best.',
     ['src/proof_common.h'], [('FastPowFormNucomp', 'src/proof_common.h'), ('FastPow', 'src/proof_common.h')])
prop('P15', 'The slow prover is complete and exact',
     'For every prime discriminant, starting form and iteration count, the slow prover returns 200 bytes: the encoding of y = x^(2^T) followed by the encoding of x^floor(2^T/B) for the Fiat-Shamir challenge B of (x, y), so ordinary verification accepts them; with a shutdown path that disappears it returns an empty vector, never a partial or wrong proof.',
     I, 'all discriminants, starting forms and iteration counts, including zero and counts that are not multiples of the block size',
     'Correctness of the block decomposition depends on T, k and l jointly; tests run a few values of T.',
     ['src/prover_slow.h'], [('ProveSlow', 'src/prover_slow.h'), ('GenerateWesolowski', 'src/prover_slow.h'), ('GetBlock', 'src/prover_slow.h')])
prop('P16', 'Prover block digits and parameters are right for every iteration count',
     'The block digit i of size k is bits [k*i, k*(i+1)) of floor(2^T/B), so it is below 2^k, for every T and every k from 1 to 63 with k*(i+1) <= T and every 264-bit odd B; the memory and block-size parameters chosen for any 64-bit iteration count are at least one, and extreme counts never make the choice undefined or negative.',
     I, 'all iteration counts up to 2^64-1, all block indices and sizes and all challenges', 'The bounds hold for every 64-bit count; tests take a handful.',
     ['src/prover_slow.h'], [('GetBlock', 'src/prover_slow.h'), ('ApproximateParameters', 'src/prover_slow.h')])
prop('P17', 'Integer and byte conversions are exact inverses',
     'The 4-byte and 8-byte encoders write the big-endian digits of the number and nothing else, the 8-byte decoder returns exactly that number, byte vectors and integers convert to each other without loss, the hexadecimal text of an integer (sign, 0x, digits) reads back as the same integer, hexadecimal text of bytes is two lowercase digits per byte, and appending keeps both parts unchanged and in order.',
     I, 'all 32-bit and 64-bit numbers, all byte vectors', 'Sign extension and byte order errors show only for particular bit patterns.',
     ['src/util.h', 'src/proof_common.h', 'src/integer_common.h'], [('Int64ToBytes / Int32ToBytes / BytesToInt64', 'src/util.h'), ('integer(bytes) / to_bytes / to_vector', 'src/integer_common.h')])
prop('P18', 'Checked conversions never lose a value',
     'The checked integral conversion returns the same mathematical value when the target type can represent it and raises an overflow error otherwise, for every pair of integral types.',
     I, 'all values of all pairs of the fixed-width integral types', 'Tests sample the boundaries of a few type pairs.',
     ['src/checked_cast.h'], [('checked_cast', 'src/checked_cast.h')])
prop('P19', 'The language bindings pass everything on unchanged',
     'Each function of the C, Python and Rust interfaces hands its arguments, unaltered and in the right roles, to the library function it wraps and returns exactly that function\'s answer: the discriminant bytes or text, the proof bytes, the verdict, the challenge or the coefficients. A library exception becomes false, a null array or None in C and Rust and a standard exception in Python; none crosses the C boundary. A starting form whose length is not 100 bytes is refused rather than read. The proof array that C returns holds the whole proof and belongs to the caller until the delete function releases it, once. Python objects are touched only while the interpreter lock is held.',
     I, 'all seeds, sizes, discriminants, forms, proofs, counts and lengths, and both outcomes of every wrapped call', 'Binding tests run each function on a few honest inputs; swapped counters, a lost exception path or a short buffer do not show on those.',
     ['src/c_bindings/c_wrapper.cpp', 'src/python_bindings/fastvdf.cpp', 'rust_bindings/src/lib.rs'], [('C wrappers', 'src/c_bindings/c_wrapper.cpp'), ('Python module functions', 'src/python_bindings/fastvdf.cpp'), ('Rust functions', 'rust_bindings/src/lib.rs')])
prop('P20', 'Checkpoint stores hand back the form of the right squaring',
     'While the squaring loop reports iterations 0, 1, 2, ..., the store of each fast prover keeps, for every checkpoint the prover later asks for, the reduced form after exactly that many squarings, and asking for a checkpoint that has been reported returns that form: the one-proof store at every multiple of its stride plus the result, the two-proof store at every multiple of 10 before the change of spacing and of 100 from it on (the change leaves what was stored before it readable and is visible to readers at once), the n-segment store at its per-segment spacings for the last 20 blocks of each segment length plus one checkpoint per 65536 iterations. Two checkpoints that are both needed never share a place, nothing else is overwritten, and an iteration that has no place is refused by an exception instead of being written elsewhere. Starting the store keeps the starting form as checkpoint zero.',
     I, 'all iteration counts up to the capacity of each store (and refusal beyond), all forms, every moment of the spacing change, both n-segment modes', 'A wrong slot shows only for iterations around a window, segment or spacing boundary tens of millions of squarings away, and only in a proof that happens to read it.',
     ['src/callback.h', 'src/fast_storage.h'], [('OneWesolowskiCallback', 'src/callback.h'), ('TwoWesolowskiCallback', 'src/callback.h'), ('FastAlgorithmCallback', 'src/callback.h'), ('FastStorage', 'src/fast_storage.h')])
prop('P21', 'Segment provers prove their segment and the assembled proofs verify',
     'Each fast segment prover (single proof, two-level, interruptible, two-threaded) asks its checkpoint store only for checkpoints of its own segment that the store keeps (the form k*l*i iterations after the segment start, i below the number of blocks) and, unless interrupted, leaves exactly one proof: the segment input raised to floor(2^length / B) for the challenge B of (input, output), reduced, announced once and only when it is there. An interrupted prover announces nothing. The single-proof request returns the encoded output and proof for the wanted iteration count with witness type 0; the two-level request returns y, proof, then length (8 bytes, big-endian), challenge (33 bytes) and proof of the earlier segments, last first, where the segments are consecutive from the input and add up to the wanted count, with witness type 2. Raising the stop flag at any moment ends a request with an empty proof.',
     I, 'all segment lengths, starts and block parameters within the iteration limit, every discriminant up to 1024 bits, every moment of an interruption', 'Tests prove a few counts end to end; a wrong checkpoint index, a remainder of the segment split or an interruption between two steps shows only for particular counts and schedules.',
     ['src/prover_impl.hpp', 'src/provers.h', 'src/vdf.h', 'src/util.h'], [('Prover::GenerateProof / GetBlock', 'src/prover_impl.hpp'), ('ParallelProver', 'src/prover_impl.hpp'), ('OneWesolowskiProver / TwoWesolowskiProver / InterruptableProver', 'src/provers.h'), ('ProveOneWesolowski / ProveTwoWeso', 'src/vdf.h')])
prop('P22', 'The n-segment manager assembles a proof chain for exactly the requested count',
     'For every iteration count from 1 up, the n-segment prover manager answers with the encoded output of exactly that many squarings and a chain of proofs whose segments start at 0, are consecutive, and add up to the requested count: finished segments picked greedily from the longest, at most 64 in all, then the proof of the remaining part, every segment written as length (8 bytes, big-endian), 33-byte challenge and 100-byte proof, last first, with the number of earlier segments as witness type. Only segments whose proof is finished are used, shared tables are read only while the lock is held, and the answer is empty only when the manager has been stopped. Segments waiting to be proved are ordered best first and put into the bucket of their length.',
     I, 'all iteration counts and every set of finished segments and every moment of a stop', 'Which segments are finished when a request arrives depends on the schedule; tests see a few schedules and a few counts.',
     ['src/vdf.h', 'src/util.h'], [('ProverManager::Prove / RunEventLoop', 'src/vdf.h'), ('Segment', 'src/util.h')])
prop('P23', 'Client sessions read and answer exactly as the protocol says',
     'A session start (three characters giving the length of the discriminant text, 1 to 349; the text; one byte giving the size of the starting form, 1 to 100; the form) is read exactly, with the text terminated and nothing written beyond the form. A request (two digits giving the number of digits, at most 20; the decimal digits) yields exactly the number it writes, 00 the end; anything malformed, cut short or above 64 bits is refused by an exception and never misread. An answer is the 4-byte big-endian length of a lowercase hexadecimal text that encodes the iteration count (8 bytes), the size of y (8 bytes), y, the witness type and the proof; it is written with the connection locked, for exactly the requested count, and not at all once the request was stopped. A single-proof session sends OK, serves one request from one squaring loop over the discriminant and form received, stops and joins its threads before the store goes, and exchanges STOP once. A two-level session answers every distinct request below the limit, ignores duplicates and requests beyond the limit, and when more than 100 are open gives up the highest.',
     I, 'all byte sequences received, all proofs and counts, a connection that fails at any point', 'The tests speak to the client, if at all, only with well-formed short conversations; malformed, extreme and very many requests do not occur.',
     ['src/vdf_client.cpp', 'src/vdf_client_session.h', 'src/util.h'], [('ReadIteration / WriteProof / FinishSession', 'src/vdf_client.cpp'), ('InitSession', 'src/vdf_client_session.h'), ('SessionOneWeso / SessionTwoWeso', 'src/vdf_client.cpp')])
prop('P24', 'The squaring loop reports every squaring once, in order, and in time',
     'The squaring loop squares the starting form again and again and reports each squaring to the checkpoint store with its own count and the form after exactly that many squarings, none left out. When a fast batch ends early the loop goes on with the reference squaring from where it ended, and when a fast batch finds its state corrupted the whole batch is redone with the reference squaring, so that the store holds the right forms afterwards. The published count never runs ahead of the reports, never decreases and never lags more than 2^15 behind. In the n-segment mode every multiple of 2^15 is handed to the storage thread with the form after that count, or the event loop is woken for every multiple of 2^16; in the two-level mode the spacing changes once, at the count reported, a multiple of 100 from 91,000,000 on, and the loop ends before the store is full. The loop ends only when stopped, when the requested count has been passed and published, or when the two-level store is full, and leaves no lock held. The reference squaring of a form with coprime a and b is its reduced square and leaves the operand alone.',
     I, 'all starting forms, discriminants, requested counts and moments of a stop; every way a fast batch can end (complete, early at any count, corrupted)',
     'Fast batches that end early or corrupted, the change of spacing after 91 million squarings and the end of the store after 799 million are out of reach of any test.',
     ['src/vdf.h', 'src/vdf_original.h'], [('repeated_square', 'src/vdf.h'), ('repeated_square_nudupl', 'src/vdf.h'), ('repeated_square_original', 'src/vdf.h'), ('vdf_original::square / reduce / normalize', 'src/vdf_original.h')])
