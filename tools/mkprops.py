#!/usr/bin/env python3
"""Writes properties.jsonl (the human-edited source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [])))

TESTS="All 23 stable tests are positive round trips at a handful of sizes (n = 4..32, honest prover, fresh randomness)"

p("C01","Prover and verifier drive the transcript identically",
  "For every argument the library offers, creating a proof and verifying it perform the same sequence of labelled transcript operations (absorb a message, absorb a number, draw a challenge), for every size and every value. A verifier that rejects may stop early, but an accepting verification never performs a sequence the prover could not have performed, and vice versa.",
  ["inputs","histories"],"all statement sizes, witness and proof values, and number of folding rounds",
  TESTS+"; a step that is only taken (or skipped) from some size or for some value on is never seen by them.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
  [("every create/verify pair appends and draws in the same order","create and verify of each argument module")],["Transcript::append_message, append_u64, challenge_bytes"])
p("C02","Every challenge is drawn after all proof messages that precede it",
  "In every argument, each group element a prover sends (blinding commitments, witness commitments, the left/right or cross terms of each folding round) is absorbed into the transcript, completely and for every one of its elements, before the next challenge is drawn, by the prover and by the verifier. No challenge that a round depends on can be computed before that round's message is fixed.",
  ["inputs","histories"],"all proofs, rounds, rows and sizes",
  TESTS+"; dropping or reordering an absorption on both sides keeps every honest round trip passing while making the argument forgeable.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
  [("append_message of C_r / L, R / c_prime_w / c_prime_prime_w / c_w / a / u_l before the following challenge_scalar","create and verify of each module")],["challenge_scalar"])
p("C03","Challenges bind the target and commitments being proven",
  "What a proof is about is fixed before its challenges: the target vector of a linear map argument, the Pedersen commitments of the copy argument, and the (adjusted) witness commitment of the inner product argument are absorbed completely before the challenges that are used to check them. The CRS, the public matrices and the sizes are the caller's to bind.",
  ["inputs","histories"],"all targets, commitments, rows and sizes, by prover and verifier",
  TESTS+" with a statement fixed up front; none chooses its statement after seeing the challenges.",
  ["src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
  [("append_message of t, commitment, c_w, P","create and verify of each module")])
p("C04","The verdict depends on the whole statement",
  "A proof is only ever accepted on grounds of the caller's own statement: on every accepting path the final equality involves every element of the CRS vectors in use, every public matrix, the target, and every commitment the caller passed. No statement component is ignored, checked in part, skipped for some sizes or values, or replaced by data from the proof.",
  ["inputs"],"all statements, proofs and sizes; every accepting path of every verifier",
  TESTS+"; no test verifies a proof against a different statement.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
  [("the verifier's fold of G, H, A, P, t and the final comparison","NoZK::verify, AlmZK::verify, Inner::verify, Copy::verify, lmpa verify functions")])
p("C05","Every part of a proof takes part in the check",
  "Every component of a proof (each round's terms, each commitment, each response scalar, each row) enters the equation that decides acceptance, on every accepting path. A proof with an arbitrary value in place of one of its components is never accepted because that component was not looked at.",
  ["inputs"],"all proofs and sizes; every accepting path of every verifier",
  TESTS+"; no test corrupts a proof.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
  [("the verifier's fold of L, R, C_r, c_prime_w, c_prime_prime_w, a, b, w, u","verify of each module")])
p("C06","Acceptance only through a complete group equality",
  "A verifier returns true only if an equality between complete group elements (for the linear map arguments: in every row) held; there is no other way to be accepted. No size, flag, special value or early exit makes a verifier return true without that equality, and the equality is never weakened to part of the elements or rows.",
  ["inputs"],"all statements, proofs and sizes; every path of every verifier that can return true",
  TESTS+"; they only see verifiers return true.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
  [("exp_P == P; expected_t == t","end of each verify")])
p("C07","Malformed proofs are rejected, not panicked on",
  "Whatever a proof contains (group elements that do not decompress, too few or too many rounds, rows or terms, any scalar), verification returns a verdict: no panic, failed assertion, out-of-range index, slice split or arithmetic overflow is reachable whose condition depends on the contents of the proof. Panics that depend only on the caller's own statement are allowed.",
  ["inputs"],"all proof contents, in every verifier and everything it calls",
  TESTS+"; no test verifies a proof that was not just created.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs"],
  [("decompress results are matched, proof vectors are length-checked or read with get","verify of each module")])
p("C08","Verification is a deterministic function of its arguments",
  "The verdict on a proof depends only on the proof, the statement and the transcript: nothing a verifier calls, directly or not, draws randomness, reads the clock, the environment, files, thread identity or addresses, or reads or writes global state. Verifying the same proof twice from equal transcripts gives the same verdict.",
  ["inputs","histories","schedules"],"all inputs and all earlier or concurrent calls",
  "The tests verify each proof once, in one process and thread.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs","src/matrix.rs"],
  [("verify functions only call pure arithmetic and the transcript","all verify functions")])
p("C09","Proving and verifying have no outputs besides their results",
  "Creating or verifying a proof communicates only through its return value and the caller's transcript: no witness, randomness or challenge (nor anything else) is printed, logged, written to a file, socket, environment variable or global state, at any size and for any value.",
  ["inputs"],"all inputs, every non-test function",
  "The tests do not look at what the library prints or stores.",
  ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs","src/matrix.rs"],
  [("no output call in library code","every function of the library target")])
p("C10","Zero-knowledge provers never emit an unmasked witness value",
  "In the zero-knowledge arguments (masked inner product, quadratic equations, copy, masked linear map), everything a prover puts in the proof or absorbs into the transcript that depends on the witness also has fresh random blinding added to it, on every path and for every element; the target itself is the only exception. In particular the sub-protocols are only ever handed blinded witnesses, and a blinding value is never revealed as a bare scalar.",
  ["inputs"],"all witnesses and sizes, every proof component and transcript message, every element of it",
  TESTS+"; an unmasked proof verifies just as well.",
  ["src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/simple_zk.rs"],
  [("masked_a, masked_b, w_prime = beta * w + r; commitments extended with r'","create of each module")])
p("C11","Blinding randomness is fresh, independent and from a CSPRNG",
  "Every blinding scalar is drawn uniformly over the whole scalar field from the operating system seeded thread generator (or OsRng) during the call that uses it. No two elements of a blinding vector share a draw, no draw is reused across calls, and no generator is seeded from a constant, from inputs, or narrowed to fewer bits.",
  ["inputs","histories"],"all calls, sizes and elements of every blinding vector",
  "Constant, repeated or low-entropy blinding produces proofs that verify; the tests cannot tell them apart.",
  ["src/ipa/gramschmidt.rs","src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/simple_zk.rs"],
  [("Scalar::random(&mut thread_rng()) once per element","sample_m_n_plus, create functions")])
p("C12","Challenges are full-width and come only from the caller's transcript",
  "Every challenge scalar is a wide reduction of at least 48 bytes squeezed from the transcript the caller passed in; no argument creates, clones or resets a transcript, nor derives a challenge in any other way. The challenges used in an argument differ for different transcripts.",
  ["inputs","histories"],"all challenges of all arguments",
  "The tests use one fresh transcript per side; a truncated, fixed or private-transcript challenge passes every round trip.",
  ["src/transcript.rs","src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
  [("64-byte challenge_bytes + from_bytes_mod_order_wide","challenge_scalar")])
p("C13","Every constraint matrix is enforced with its own challenge",
  "When a system of quadratic equations is batched, every matrix of the system contributes to the batched matrix, scaled by its own power of the batching challenge, on the prover's and the verifier's side, however many matrices there are. No matrix is dropped, and no two share a scaling factor.",
  ["inputs"],"all constraint systems: any number and size of matrices",
  TESTS+" with at most a few matrices; dropping the surplus ones is invisible to an honest round trip.",
  ["src/matrix.rs","src/ipa/qesa_inner.rs","src/math_utils.rs"],
  [("block_matrix_batch, vandemonde_challenge","src/matrix.rs, src/ipa/qesa_inner.rs")])
p("C14","Mismatched dimensions are refused, never truncated",
  "Adding or subtracting rows and matrices (of scalars or points) and taking the inner product of two scalar vectors combines every element of both operands; operands of different sizes are refused with a panic instead of being silently cut to the shorter one. (The product of a matrix of points with a vector, and its generic variant, are used on rows of other lengths and do not promise this.)",
  ["inputs"],"all operand sizes and values",
  "The tests only combine operands of equal size.",
  ["src/matrix.rs","src/math_utils.rs"],
  [("assert_eq on the lengths before zip","row_row_add, row_row_sub, matrix_matrix_add, rowpoint_rowpoint_add, matrixpoint_matrix_add, inner_product")])
p("C15","Message positions never collide with the witness or reserved slots",
  "A mapping computed for a set of commitments places every message at a witness position that is at or after the end of the witness, before the two slots reserved for randomness, and not one of the commitment indices; it assigns positions in increasing order, one per message. A commitment to the reserved first slot, more messages than free positions, and sizes that do not fit the position type are refused.",
  ["inputs"],"all sizes, witness lengths and index sets",
  "The only mapping test fails at random and is not among the stable ones; the copy tests use two fixed layouts.",
  ["src/copy/mapping.rs"],
  [("compute_mapping's range, filter and assertions","src/copy/mapping.rs")])
p("C16","The copy argument ties every commitment to the mapped witness positions",
  "Verification of a copy proof adds, for every commitment index of the mapping, one equation that relates the aggregated committed value to the messages at their mapped positions, each scaled by the challenge power of its commitment, and folds every commitment with its own challenge power into the witness commitment. The prover adds the same equations; a mapping for a different number of commitments is rejected.",
  ["inputs"],"all mappings, commitments and sizes",
  TESTS+" with at most two commitments; none verifies with other commitments.",
  ["src/copy/copy.rs"],
  [("the loops over unique_commitment_indices and msgs_map","create and Copy::verify")])
p("C17","Proving and verifying terminate",
  "Every loop reachable from the library's functions is bounded: it iterates over a finite collection or range, or moves a counter strictly towards its exit, for every input it accepts. Inputs for which a folding loop would never reach its end (an empty basis, a split in fewer than two parts) are refused first.",
  ["inputs"],"all inputs of all public and internal functions, all loops",
  TESTS+", all of which are powers of two.",
  ["src/ipa/no_zk.rs","src/ipa/gramschmidt.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/matrix.rs","src/math_utils.rs"],
  [("asserted power of two / k >= 2 before the folding loops","create and verify")])
p("C18","The first witness element is pinned to one by a late challenge",
  "In the quadratic equation argument the first element of the witness is forced to be one: the verifier rescales the first generator, and adjusts the witness commitment, by a challenge that is only drawn after that commitment was absorbed. Prover and verifier apply the same rescaling, on every path.",
  ["inputs"],"all witnesses, systems and sizes",
  TESTS+", whose witnesses start with one; leaving the slot free changes nothing for them.",
  ["src/ipa/qesa_inner.rs"],
  [("G_Vec[0] * beta.invert() and c_prime_w - (beta - 1) * G_Vec[0]","create and Inner::verify")])
p("C19","A Pedersen commitment covers every message and is blinded",
  "A commitment is the sum of every message times the generator of its own index, plus the blinding scalar times the last generator; no message or index is left out, whatever their number, and a message list whose length differs from the index set is refused.",
  ["inputs"],"all index sets, messages and blinding scalars",
  "The copy tests commit to at most three messages, with matching lengths.",
  ["src/copy/mapping.rs","src/lmpa/simple_zk.rs"],
  [("commit and pedersen_commit","src/copy/mapping.rs, src/lmpa/simple_zk.rs")])
p("C20","Provers refuse inputs that do not fit together",
  "A prover never produces a proof from vectors whose lengths do not fit: the inner product argument refuses bases and vectors of different or non-power-of-two length, the quadratic argument refuses a witness that does not leave exactly the two blinding slots, and the copy argument refuses a witness whose first element is not one and openings that do not match the mapping. The refusal happens on every path that returns a proof.",
  ["inputs"],"all lengths and values of the prover's inputs",
  TESTS+", all consistent.",
  ["src/ipa/no_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs"],
  [("assertions at the start of each create","create functions")])
N=[]
def na(id,title,statement,over,text,why,files,reason):
    p(id,title,statement,over,text,why,files,[("the argument as a whole",files[0])]); N.append((id,reason))
p("C21","A mapping records for every message which commitment it belongs to",
  "A mapping has one entry per message, numbered from zero; each entry records the generator index of its message (the element of its index set) and the position of that index set among the commitments, for every index of every set, in order. The mapping records the number of commitments, the union of all index sets, and the last position it assigned.",
  ["inputs"],"all index sets, of any number and size",
  "The copy tests use mappings for one or two sets of at most three indices; the test that looks at the entries of a mapping is not among the stable ones.",
  ["src/copy/mapping.rs"],
  [("the loops that fill commitment_index and commitment_crs_id","compute_mapping")])
na("C30","Completeness: honest proofs always verify",
  "A proof created from a witness that satisfies the statement is accepted by the matching verifier, for every size, statement, witness and randomness.",
  ["inputs"],"all statements, witnesses, sizes and randomness",TESTS+".",["src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/simple_zk.rs","src/ipa/alm_zk.rs"],
  "Equality of two elliptic-curve expressions over all field values and sizes is an algebraic identity; no dataflow or typing argument over the source establishes it. Its structural necessary conditions are claimed separately (C01, C16, C18).")
na("C31","Knowledge soundness",
  "A prover that makes the verifier accept with non-negligible probability knows a witness for the statement.",
  ["inputs","histories"],"all (malicious) provers","No test runs a malicious prover.",["src/qesa_zk.rs","src/copy/copy.rs","src/lmpa/simple_zk.rs"],
  "A computational statement about all provers, reduced to the discrete logarithm assumption; static analysis can only decide structural necessary conditions, which are claimed separately (C02-C06, C12, C13, C18).")
na("C32","Statistical zero knowledge",
  "The distribution of a proof can be simulated from the statement alone.",
  ["inputs"],"all witnesses and verifiers","Distributions cannot be compared by a few samples.",["src/ipa/alm_zk.rs","src/ipa/gramschmidt.rs"],
  "A statement about probability distributions; the masking discipline it needs is claimed separately (C10, C11).")
na("C33","Sampled masks are orthogonal to their inputs",
  "The sampled blinding vectors are orthogonal to the vectors they are sampled for, whatever those are.",
  ["inputs"],"all non-degenerate vectors","The tests sample a few random vectors of length four.",["src/ipa/gramschmidt.rs"],
  "An algebraic identity over field values (Gram-Schmidt), with a non-degeneracy side condition on runtime values.")
na("C34","Matrix operations compute the right values",
  "Products, transposes, splits and Vandermonde vectors equal their mathematical definition for every operand.",
  ["inputs"],"all operands","A few fixed operands are tested.",["src/matrix.rs","src/math_utils.rs"],
  "Numerical results over runtime values; the dimension discipline is claimed separately (C14).")
import os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(root,'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
json.dump(dict(not_applicable=[dict(property=a,reason=b) for a,b in N]),open(os.path.join(root,'tools','not_applicable.json'),'w'),indent=1)
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
