#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
P = []
def prop(id, title, statement, over, text, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **k)))
I = ['inputs']
prop('P01', 'Proof verification accepts exactly the valid proofs',
     'For a negative discriminant of at most 1024 bits, the n-Wesolowski verifier accepts a proof exactly when its length is 200 + 141*depth bytes, every encoded form is valid, every segment carries its own Fiat-Shamir challenge and satisfies pi^B * x^(2^t mod B) = y for its iteration count, the segment counts do not exceed the requested total, and the final segment satisfies the same equation for exactly the iterations that remain. In every other case it answers false or raises a standard exception.',
     I, 'all discriminants, starting forms, proof bytes, proof lengths, iteration counts, declared discriminant sizes and depths',
     'The tests verify a handful of honest proofs and a few truncated ones; soundness is a claim about every byte string an attacker can send.',
     ['src/verifier.h', 'src/proof_common.h', 'src/util.h'], [('CheckProofOfTimeNWesolowski', 'src/verifier.h'), ('VerifyWesoSegment / VerifyWesolowskiProof', 'src/verifier.h')])
prop('P02', 'Verification with a given challenge returns the output only when valid',
     'Verification against a caller-supplied final challenge accepts exactly when the proof has 100 + 141*depth bytes, all intermediate segments hold as in ordinary verification, and the supplied challenge is the Fiat-Shamir challenge of the last input and the output that the final proof determines. On acceptance it returns the 100-byte encoding of that output; otherwise it returns false with no output bytes, or raises a standard exception.',
     I, 'all discriminants, challenges, starting forms, proof bytes, iteration counts and depths',
     'No existing test supplies wrong challenges, wrong depths and multi-segment proofs together; the acceptance set is infinite.',
     ['src/verifier.h'], [('CheckProofOfTimeNWesolowskiWithB', 'src/verifier.h'), ('CheckProofOfTimeNWesolowskiCommon', 'src/verifier.h')])
prop('P03', 'Challenge extraction gives the challenge the verifier would use',
     'Extracting the challenge from a well-formed proof (200 + 141*depth bytes, valid forms, nonzero segment challenges, segment iterations within the total) returns exactly the Fiat-Shamir challenge of the input of the last segment and the claimed output. A malformed proof is refused with a standard exception and never yields a challenge.',
     I, 'all discriminants, starting forms, proof bytes, iteration counts and depths',
     'Tests only extract from honest proofs of depth zero or one.',
     ['src/verifier.h'], [('GetBFromProof', 'src/verifier.h')])
prop('P04', 'Verifier entry points survive any input',
     'Every verification entry point, given any discriminant, any proof bytes of any length (including null pointers and lengths or depths that do not match), any starting form of 100 bytes and any counters, returns an answer or raises a standard exception. It never reads or writes outside the buffers it was given, divides by zero, aborts, or modifies its inputs.',
     I, 'all byte strings, lengths, depths, iteration counts, challenges and discriminants, including zero and positive ones',
     'Memory safety on hostile input is universal over byte strings; tests touch a few lengths.',
     ['src/verifier.h', 'src/bqfc.c', 'src/proof_common.h', 'src/vdf_new.h'], [('length and range checks', 'src/verifier.h'), ('form decoding', 'src/bqfc.c')])
prop('P05', 'Seed-based verification binds the proof to the derived discriminant',
     'Verification from a challenge seed and a size accepts exactly when the size is one that discriminant derivation allows and ordinary verification accepts the same proof for the discriminant derived from exactly that seed and size. Sizes that are zero, above 1024 or not a multiple of 8 and empty seeds are refused.',
     I, 'all seeds, sizes, starting forms, proofs, iteration counts and depths',
     'Tests use one seed and one size with an honest proof.',
     ['src/verifier.h', 'src/create_discriminant.h'], [('CreateDiscriminantAndCheckProofOfTimeNWesolowski', 'src/verifier.h')])
prop('P06', 'Encoding a form is canonical and loses nothing',
     'For every squarefree negative discriminant of at most 1024 bits that is 1 modulo 4 (every derived discriminant is one) and every form of it, the encoder writes exactly 100 bytes that depend only on the equivalence class of the form, and decoding those bytes for the same discriminant gives back the reduced form of that class.',
     I, 'all squarefree discriminants up to 1024 bits and all forms, reduced or not, including the identity, the generator and forms with |b| = a or with common factors',
     'Round trips in tests cover random forms of one size; the compressed encoding has rare branches (common factors, equal coefficients).',
     ['src/bqfc.c', 'src/proof_common.h', 'src/xgcd_partial.c'], [('SerializeForm', 'src/proof_common.h'), ('bqfc_serialize / bqfc_compr', 'src/bqfc.c')])
prop('P07', 'Decoding accepts only canonical encodings of forms of the discriminant',
     'Decoding succeeds only for inputs of exactly 100 bytes whose fields describe a form of the given discriminant, and then returns the reduced form of that discriminant; apart from the identity and generator tags, the bytes must be exactly what encoding the decoded coefficients produces, and strict decoding also refuses coefficients with |b| > a. Everything else raises an exception, and no byte outside the 100 is read.',
     I, 'all discriminants up to 1024 bits and all byte strings of all lengths, strict or not',
     'There are 256^100 byte strings; the regression tests cover a dozen malformed ones.',
     ['src/bqfc.c', 'src/proof_common.h', 'src/vdf_new.h'], [('DeserializeForm', 'src/proof_common.h'), ('bqfc_deserialize', 'src/bqfc.c'), ('form::from_abd', 'src/vdf_new.h')])
prop('P08', 'Discriminant derivation is the specified deterministic function',
     'For a nonempty seed and a size that is a multiple of 8 between 8 and 1024, the derived discriminant is minus the first number in the SHA-256 counter stream of the seed, cut to that size with the top bit and the low three bits set, that passes the primality test, when there is one (the stream of a one-byte seed repeats, and at large sizes may hold none); so it has exactly that many bits and is 1 modulo 8. Any other size and an empty seed are refused with an invalid-argument error, and the seed is not changed.',
     I, 'all seeds and all sizes', 'Tests compare a few fixed vectors; consensus requires every seed of every size to agree bit for bit.',
     ['src/create_discriminant.h', 'src/proof_common.h', 'src/picosha2.h'], [('CreateDiscriminant', 'src/create_discriminant.h'), ('HashPrime', 'src/proof_common.h')])
prop('P09', 'The Fiat-Shamir challenge binds both forms',
     'The challenge for an input and an output form is the first 264-bit number with its top and lowest bit set, drawn from the SHA-256 counter stream of the 100-byte encoding of the input followed by the 100-byte encoding of the output, that passes the primality test. It depends on nothing else.',
     I, 'all discriminants and all pairs of forms', 'Tests never recompute the challenge independently; a prover and verifier sharing the same mistake would agree.',
     ['src/proof_common.h', 'src/picosha2.h'], [('GetB', 'src/proof_common.h'), ('HashPrime', 'src/proof_common.h')])
INFO = {}
def lv(id, note, technique='contract-based deductive verification of the LLVM IR of the real functions (z3), counterexamples replayed on the real code'): INFO[id] = (technique, note)
NA = []
exec(open(os.path.join(HERE, 'tools', 'more.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    if p['id'] not in props.PROPS: continue
    q = props.PROPS[p['id']]
    t, n = INFO.get(p['id'], ('contract-based deductive verification of the LLVM IR of the real functions (z3), counterexamples replayed on the real code', ''))
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'], technique=t, level=q.get('level', 'proof'), level_note=n or q.get('note', 'all obligations of the functions listed in the evidence are discharged on every run; replay cases are a bounded addition')))
claimed = {c['property'] for c in checks}
na = [x for x in NA]
for p in P:
    if p['id'] not in claimed and p['id'] not in {x['property'] for x in na}: na.append(dict(property=p['id'], reason='contracts for this property are not discharged yet'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
