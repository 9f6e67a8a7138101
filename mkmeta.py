#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when the property list changes)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from props import PROPS
L = []
def P(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    L.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))
LG = 'src/linear_gkr/'; TG = 'src/traditional_gkr/'
P('G01', 'Linear GKR: an honest proof of any well-formed circuit is accepted',
  'For every well-formed layered circuit, every input and every sequence of verifier coins, the verifier of the linear-time protocol accepts the proof produced by the honest prover. This includes every supported gate kind at every position, layers of a single gate, circuits that are only an input layer, and unlucky coins such as 0 and 1.',
  ['inputs', 'programs', 'configurations'], 'all circuits (layer sizes 2^k or 1, all gate kinds and wirings), all input values (signed 64-bit), all coin sequences',
  'The tests run a handful of generated SHA/Lanczos/matmul circuits with one fixed coin sequence; an error in a rare gate kind, wiring, layer shape or coin value is never exercised.',
  [LG + 'prover_fast_track.cpp', LG + 'verifier_fast_track.cpp', 'include/linear_gkr/circuit_fast_track.h'], [('two-phase sumcheck per layer', LG + 'prover_fast_track.cpp sumcheck_phase1/2'), ('layer predicates per gate kind', LG + 'verifier_fast_track.cpp add/mult/... '), ('input relay layer', LG + 'verifier_fast_track.cpp direct_relay')],
  'explicit enumeration of all circuits/coins in bounded families, real prover against real verifier',
  'Complete within the bounds: all two-gate layers over all gate kinds and wires, all layer-width sequences to length 4 (thorough 5), every single-gate change at widths to 8 (16), up to two challenges forced to 0/1 at every position. Beyond the bounds only by homogeneity.')
P('G02', "Linear GKR: proved outputs are the circuit's values on its inputs",
  'For every well-formed circuit description, however its text is spaced, the output the system evaluates and proves is exactly the value of the described circuit on the described inputs, computed modulo the field prime. Each gate kind has its documented meaning, a summation gate covers exactly its half-open range, dummy gates are zero and a one-gate layer is padded with zero.',
  ['inputs', 'programs'], 'all circuit files in the documented format, all inputs',
  'The tests only look at the Pass verdict, which holds for a consistently wrong evaluation; no test compares outputs with an independent evaluation.',
  [LG + 'verifier_fast_track.cpp', LG + 'prover_fast_track.cpp', LG + 'README.md'], [('circuit reader', LG + 'verifier_fast_track.cpp read_circuit'), ('evaluation', LG + 'prover_fast_track.cpp evaluate')],
  'explicit enumeration of circuit descriptions; lock-step comparison with an independent evaluator', 'Complete within the bounded families (about 900k circuits quick); trusts the 40-line reference evaluator.')
P('G03', 'Linear GKR: no proof of a false output is accepted',
  'Whatever messages the prover sends, if the output it claims differs from the true output of the circuit on its inputs in any position, the verifier of the linear-time protocol rejects, except with the negligible probability of guessing a fresh random challenge. In particular every round polynomial, every closing claim of a layer, the claimed output and the inputs are all checked, with the full field value.',
  ['inputs', 'fault_sequences', 'histories'], 'all prover strategies, all false claims, all circuits and inputs',
  'Every existing test uses the honest prover: a verifier that skips or weakens any check passes them all.',
  [LG + 'verifier_fast_track.cpp', 'include/linear_gkr/verifier_fast_track.h'], [('round checks', LG + 'verifier_fast_track.cpp verify'), ('closing check of a layer', LG + 'verifier_fast_track.cpp verify'), ('input check', LG + 'verifier_fast_track.cpp V_in')],
  'explicit-state adversary model (error carried through the checks), every trace replayed against the real verifier', 'Adversary model enumerates, for every check of the protocol, provers that satisfy all the others; acceptance of any false claim is a violation. Strategies outside the model (e.g. ones exploiting structure of the random source) are not covered.')
P('G04', "Verifier challenges are unpredictable to the prover when it must answer",
  'In all four interactive protocols every challenge the verifier uses is a field element that is still undetermined, given everything the prover has been told before, at the moment the prover has to send the message it protects; no challenge is a constant, repeats another, or is reused by a later proof.',
  ['inputs', 'histories'], 'all circuits, all coin sequences, all positions in the protocol',
  'Tests cannot tell a fixed or predictable challenge from a random one: the honest proof is accepted either way.',
  [LG + 'verifier_fast_track.cpp', TG + 'verifier_traditional.cpp', TG + 'verifier_bc_clogc.cpp', LG + 'prime_field.cpp'], [('challenge generation', 'generate_randomness in each verifier'), ('random elements', LG + 'prime_field.cpp random')],
  'exhaustive single-coin perturbation of complete protocol runs (non-interference over all coins)', 'For each run of the family every coin is changed in turn and the whole run repeated. The quality of the process random source itself is outside.')
P('T01', 'Layered GKR (bclogc): honest proofs accepted, outputs are the circuit values',
  'For every well-formed circuit of addition, multiplication and dummy gates, every input and every sequence of coins, the non-data-parallel baseline protocol accepts the honest proof, and the outputs it proves are exactly the circuit values modulo the field prime.',
  ['inputs', 'programs', 'configurations'], 'all circuits over the supported gates, inputs, coins', 'The tests run few circuits with one coin sequence and never compare the output values.',
  [TG + 'prover_clogc.cpp', TG + 'verifier_traditional.cpp'], [('round polynomials', TG + 'prover_clogc.cpp'), ('predicates', TG + 'verifier_traditional.cpp add/mult')],
  'explicit enumeration of circuits/coins, real prover against real verifier and reference evaluator', 'Complete within the bounded families.')
P('T02', 'Layered GKR (bclogc): no proof of a false output is accepted',
  'Whatever the prover sends, the verifier of the non-data-parallel baseline protocol rejects every output claim that differs from the true output, except with the negligible probability of guessing a fresh challenge.',
  ['inputs', 'fault_sequences'], 'all prover strategies, false claims, circuits and inputs', 'Every existing test uses the honest prover.',
  [TG + 'verifier_traditional.cpp'], [('round, closing and input checks', TG + 'verifier_traditional.cpp verify')],
  'explicit-state adversary model, every trace replayed against the real verifier', 'As G03, for this protocol.')
P('B01', 'Data-parallel GKR (bc_clogc): honest proofs accepted, outputs are the values',
  'For every well-formed sub-circuit, every number of blocks that is a power of two (including one), every assignment of inputs to the blocks and every sequence of coins, the data-parallel protocol accepts the honest proof, and the proved output of each block is exactly the value of the sub-circuit on that block\'s inputs.',
  ['inputs', 'programs', 'configurations'], 'all sub-circuits, block counts, per-block inputs, coins', 'The tests feed every block the same inputs and one coin sequence, and never compare output values.',
  [TG + 'prover_bc_clogc.cpp', TG + 'verifier_bc_clogc.cpp', 'include/traditional_gkr/circuit_bc_clogc.h'], [('block sumcheck', TG + 'prover_bc_clogc.cpp phase0'), ('block weights', TG + 'verifier_bc_clogc.cpp')],
  'explicit enumeration of circuits/block layouts/coins, real prover against real verifier and reference evaluator', 'Complete within the bounded families: 1, 2, 4 (8) blocks in full, to 2^7 (thorough 2^9) blocks for some; same inputs, all different, only the last different.')
P('B02', 'Data-parallel GKR (bc_clogc): no proof of a false output is accepted',
  'Whatever the prover sends, the verifier of the data-parallel protocol rejects every claim in which the output of any block differs from the true one, except with the negligible probability of guessing a fresh challenge; the verifier takes no weight or evaluation from the prover on trust.',
  ['inputs', 'fault_sequences'], 'all prover strategies, false claims, sub-circuits, block counts and inputs', 'Every existing test uses the honest prover.',
  [TG + 'verifier_bc_clogc.cpp'], [('block, round, closing and input checks', TG + 'verifier_bc_clogc.cpp verify')],
  'explicit-state adversary model, every trace replayed against the real verifier', 'As G03, for this protocol, block rounds included.')
P('P01', 'The programs report success exactly when every proof they ran was accepted',
  'Each command-line prover/verifier program runs exactly the requested number of copies or blocks on the given circuit, and prints its success message if and only if the verifier accepted every one of them; a single rejected proof at any position makes it report failure.',
  ['inputs', 'fault_sequences', 'configurations'], 'all circuits, numbers of copies or blocks, and positions of a false proof', 'The tests look for the success message only, on honest runs.',
  [LG + 'main_fast_track.cpp', TG + 'bclogc.cpp', TG + 'bc_clogc.cpp', LG + 'main_zk.cpp'], [('verdict', 'main / run_verifications of each program')],
  'exhaustive fault placement: one false proof at every position, whole programs executed in process', 'Complete for up to 8 copies or blocks and the circuit family.')
P('F01', 'Field arithmetic is exact for every operand',
  'Addition, subtraction, multiplication, comparison and conversions of field elements give the exact residue modulo the prime, in reduced form, for all operands; a sum of up to two unreduced products and a few elements reduced once gives the same as reducing each step; random elements are always reduced.',
  ['inputs'], 'all field elements, and all unreduced values below 2^508', 'A lost carry or a wrong quotient estimate occurs on a vanishing fraction of operands, which test circuits with small inputs do not reach.',
  [LG + 'prime_field.cpp', 'include/linear_gkr/prime_field.h'], [('Barrett reduction', LG + 'prime_field.cpp u512b::operator%'), ('carries', LG + 'prime_field.cpp u512b/u256b operators')],
  'exhaustive operand tuples and operation sequences over boundary and inverse-image alphabets, lock-step with GMP', 'Complete over the alphabets (limb boundaries, neighbours of p, preimages of boundary products); not every 254-bit pair.')
P('F02', 'Round polynomials add, multiply and evaluate exactly',
  'For every coefficient vector and every point, the polynomials of degree 1 to 5 that carry the protocol messages evaluate to the exact value modulo the prime, and their sums and products have the exact coefficients, with the highest degree first.',
  ['inputs'], 'all coefficient vectors and evaluation points', 'Only the combinations occurring in a few honest runs are executed by tests, and prover and verifier would be wrong together.',
  [LG + 'polynomial.cpp', 'include/linear_gkr/polynomial.h'], [('evaluation and product formulas', LG + 'polynomial.cpp')],
  'exhaustive coefficient vectors over a boundary alphabet, lock-step with GMP', 'Evaluation and products are polynomial identities of low degree in each coefficient: agreement on the alphabet (5 or more values per coefficient) decides them for fixed formulas.')
P('N01', 'Multi-threaded GKR: honest proofs accepted, outputs are the circuit values',
  'For every well-formed circuit of addition, multiplication and dummy gates, every input and every sequence of coins, the verifier of the multi-threaded prover accepts its honest proof, and the outputs it proves are exactly the circuit values modulo the field prime, whatever the widths and the fan-out of the layers.',
  ['inputs', 'programs', 'configurations'], 'all circuits over the supported gates, inputs, coins', 'The tests do not build the multi-threaded prover at all.',
  [LG + 'prover_fast_para_track.cpp', LG + 'verifier_fast_para_track.cpp', LG + 'main_fast_para_track.cpp'], [('slices of the tables', LG + 'prover_fast_para_track.cpp phase1_init_func, phase2_init_func'), ('round polynomials', LG + 'prover_fast_para_track.cpp phase1_update_func, phase2_update_func')],
  'explicit enumeration of circuits/coins, real prover against real verifier and reference evaluator', 'Complete within the bounded families; thread bodies run one after the other here, schedules are N03.')
P('N02', 'Multi-threaded GKR: no proof of a false output is accepted',
  'Whatever messages the prover sends, if the output it claims differs from the true output of the circuit on its inputs, the verifier that goes with the multi-threaded prover rejects, except with negligible probability: every round polynomial, every closing claim of a layer, the claimed output and the inputs are checked with the full field value.',
  ['inputs', 'fault_sequences', 'histories'], 'all prover strategies, false claims, circuits and inputs', 'The tests do not build this verifier, and an honest run cannot show that a check is missing.',
  [LG + 'verifier_fast_para_track.cpp'], [('round checks', LG + 'verifier_fast_para_track.cpp verify'), ('closing check of a layer', LG + 'verifier_fast_para_track.cpp verify'), ('input check', LG + 'verifier_fast_para_track.cpp V_in')],
  'explicit-state adversary model (error carried through the checks), every trace replayed against the real verifier', 'As G03.')
P('N03', 'Multi-threaded GKR: the proof does not depend on the thread schedule',
  'For every circuit and every interleaving of its worker threads, the multi-threaded prover sends exactly the same messages and outputs: no thread reads a value before the thread that computes it has finished, and no two threads update the same memory.',
  ['schedules', 'inputs'], 'all interleavings of the worker threads in every parallel phase, all circuits', 'A run executes one schedule out of astronomically many, and the tests do not build the multi-threaded prover.',
  [LG + 'prover_fast_para_track.cpp', 'include/linear_gkr/prover_fast_para_track.h'], [('fork and join of the phases', LG + 'prover_fast_para_track.cpp sumcheck_phase1_init, sumcheck_phase2_init, sumcheck_phase*_update'), ('slices written by a thread', LG + 'prover_fast_para_track.cpp *_func')],
  'stateless exploration of the real thread bodies under a controlled scheduler, dynamic partial-order reduction by recorded accesses', 'All orders of whole bodies; interleavings inside bodies wherever two bodies touch common memory (up to two suspensions), which on the current tree never happens: the reduction is then exact.')
P('H01', 'A proof does not depend on what was proved before',
  'For every sequence of proofs run one after the other with the same prover and verifier, whether earlier ones succeeded, were rejected or were only evaluated, each honest proof is accepted, each false claim rejected and each output correct, exactly as if it were the only one; nothing depends on the previous contents of memory.',
  ['histories'], 'all sequences of proofs of circuits of different sizes, all outcomes of earlier ones', 'Every test starts a fresh process per proof with zeroed memory.',
  [LG + 'prover_fast_track.cpp', LG + 'verifier_fast_track.cpp', TG + 'prover_clogc.cpp', TG + 'verifier_traditional.cpp', TG + 'prover_bc_clogc.cpp', TG + 'verifier_bc_clogc.cpp'], [('allocation and initialisation of the tables', 'proof_init / sumcheck_*_init / beta_init')],
  'exhaustive operation sequences of length 3 on the real objects with poisoned allocations', 'All triples over 7 (thorough 10) circuits and 3 kinds of first step, three protocols.')
P('M01', 'Proving and verifying never touches memory outside its objects',
  'For every well-formed circuit, including layers of one gate and circuits that shrink or grow sharply between layers, and whether the proof is accepted or rejected at any point, reading, evaluating, proving and verifying perform no access outside allocated objects, no use after free and no undefined arithmetic.',
  ['inputs', 'programs'], 'all circuits and all points of rejection', 'Out-of-bounds reads of a few elements do not crash and usually do not change the verdict.',
  [LG + 'prover_fast_track.cpp', LG + 'verifier_fast_track.cpp', TG + 'prover_clogc.cpp', TG + 'verifier_traditional.cpp', TG + 'prover_bc_clogc.cpp', TG + 'verifier_bc_clogc.cpp', LG + 'prover_fast_para_track.cpp', LG + 'verifier_fast_para_track.cpp', LG + 'zk_prover.cpp', LG + 'zk_verifier.cpp'], [('table sizes', 'proof_init and beta_init')],
  'explicit enumeration of circuit shapes and rejection points, executed under address and undefined-behaviour sanitizers', 'All width sequences to length 3 (4), all gate kinds, rejection at each of the first checks.')
P('M02', 'Generator, translators and field arithmetic stay inside their memory',
  'For every supported mode and size of bin/gen, every well-formed source program, data layer and number of copies given to the three translators, and every operand of the field and polynomial operations, the code completes, performs no access outside allocated objects, no use after free and no undefined arithmetic.',
  ['inputs', 'programs', 'configurations'], 'all modes and sizes, source programs, data layers and copies; all operands', 'A table that is one entry short, or a read past its end, neither crashes nor changes the few circuits the tests generate.',
  ['bin/gen.cpp', 'parser_sha_data_parallel.cpp', 'parser_lanczos.cpp', 'parser_sha.cpp', LG + 'prime_field.cpp', LG + 'polynomial.cpp'], [('tables of gates, levels and copies', 'parser_*.cpp'), ('limb arithmetic', LG + 'prime_field.cpp')],
  'exhaustive enumeration of the spaces of X01-X03, F01 and F02 executed under address and undefined-behaviour sanitizers', 'As X01-X03, F01, F02.')
P('X01', 'The circuit generator writes well-formed circuits that compute what it promises',
  'For every supported mode, size and sequence of random draws, bin/gen writes a well-formed circuit: sorted gates, wires inside the layer below, power-of-two layers. Modes 2 and 4 compute every entry of the product of the two random matrices; modes 0 and 1 compute their chain of XOR or doubling-and-product layers on the drawn inputs; the meta data of the block modes describes exactly the layers written, and no wire leaves its block.',
  ['inputs', 'configurations'], 'all modes 0, 1, 2, 4, sizes and random draws', 'The tests prove the generated circuits: any well-formed circuit passes, whatever it computes.',
  ['bin/gen.cpp'], [('modes', 'bin/gen.cpp main'), ('meta data', 'bin/gen.cpp meta_data.txt')],
  'exhaustive enumeration of modes, sizes and draw sequences on the real generator, outputs compared with an independent evaluator', 'All depths to 14 (40), widths to 2^10, matrices to 32x32 (64x64); draws are enumerated sequences, not all values.')
P('X02', 'The data-parallel translator preserves the meaning of the source circuit',
  'For every well-formed .pws program and .rdl data layer with a power-of-two number of copies, the circuit that parser_sha_data_parallel writes computes, for every copy, exactly the values of the program\'s outputs on the inputs the data layer routes to that copy: every declared output, at whatever level it is computed, appears in the last layer together with the other deepest variables (those in ascending order, padded with zeros) and nothing else. All operators (+, *, XOR, minus, NAAB, NOT, SS with both ends included) keep their meaning and operand order, values used several levels later are carried unchanged, and the meta data describes the layers and identical copies exactly.',
  ['programs', 'inputs', 'configurations'], 'all source programs, data layers and numbers of copies', 'The tests translate one SHA-256 program and look at the verdict of the proof, which is Pass for any well-formed circuit.',
  ['parser_sha_data_parallel.cpp'], [('levels and relays', 'parser_sha_data_parallel.cpp add_relay'), ('copies and meta data', 'parser_sha_data_parallel.cpp merge_and_output')],
  'exhaustive enumeration of source programs, translated by the real tool and compared with an independent interpreter', 'All programs of 1-2 gates over 1-3 inputs and every operator, 3 gates over 2 inputs with fewer operators (all in thorough), all summation ranges to width 7, all data maps to 6 positions.')
P('X03', 'The Lanczos and SHA translators preserve the meaning of the source circuit',
  'For every well-formed .pws program and .rdl data layer and every number of copies that is a power of two, the circuits written by parser_lanczos (operators + and *) and parser_sha (+, *, XOR, minus, NAAB, NOT) are well formed and compute, after a leading zero, exactly the values of the program\'s deepest variables, in ascending order and for every copy, on the inputs the data layer routes to that copy, followed by the outputs declared at earlier levels. Constants of the data layer keep their sign and all their bits.',
  ['programs', 'inputs', 'configurations'], 'all source programs, data layers and numbers of copies', 'The tests translate fixed programs and only look at the verdict of the proof.',
  ['parser_lanczos.cpp', 'parser_sha.cpp'], [('levels, relays and copies', 'parser_lanczos.cpp and parser_sha.cpp')],
  'exhaustive enumeration of source programs, translated by the real tools and compared with an independent interpreter', 'All programs of 1-2 gates over 1-3 inputs and every operator, 3 gates over 2 inputs, all data maps to 6 positions, widths to 18 (40).')
ZP = LG + 'zk_prover.cpp'; ZV = LG + 'zk_verifier.cpp'; VP = 'src/VPD/'
P('Z01', 'ZK argument: honest proofs accepted, outputs are the circuit values',
  'For every well-formed circuit, every input, every block description that matches the circuit and every sequence of coins, the zero-knowledge verifier accepts the proof of the honest prover, and the outputs it proves are exactly the values of the circuit modulo the field prime. This includes every supported gate kind (exponent sums and bit tests too), one-gate layers, layers declared as repeated blocks, and challenges 0 and 1.',
  ['inputs', 'programs', 'configurations'], 'all circuits (layer sizes 2^k or 1), inputs (signed 64-bit), block descriptions, coins',
  'The zero-knowledge program needs a pairing library that is not in the repository and is not run by the tests at all.',
  [ZP, ZV, LG + 'main_zk.cpp'], [('masked sumcheck per layer', ZP + ' sumcheck_phase1/2, sumcheck_finalround'), ('layer predicates, blocks', ZV + ' predicates')],
  'explicit enumeration of circuits/coins/block layouts, real prover against real verifier and reference evaluator', 'Complete within the bounded families; the pairing groups are replaced by exponents modulo their order (ideal bilinear group).')
P('Z02', 'ZK argument: no proof of a false output is accepted',
  'Whatever the prover sends, opens or keeps in its object, the zero-knowledge verifier rejects every claim in which an output differs from the true value on the committed inputs, except with the negligible probability of guessing a challenge. Every round polynomial, every closing relation with its mask terms, every commitment, every opening with its knowledge part and the claimed output are checked by the verifier itself, and none of the messages can be changed without rejection.',
  ['inputs', 'fault_sequences', 'histories'], 'all prover strategies, false claims, circuits, inputs and block layouts',
  'The program is not run by the tests, and an honest run cannot show that a check is missing.',
  [ZV, ZP, VP + 'inputvpd.cpp', VP + 'vpdR.cpp', VP + 'vpd_test.cpp'], [('round checks', ZV + ' verify'), ('closing relation with masks', ZV + ' verify'), ('openings', ZV + ' verify, vpdR/vpd_test/input_vpd verify and check_commit')],
  'explicit-state adversary model (error carried through the checks, lying prover state, every message perturbed), each trace replayed against the real verifier', 'Adversary model as G03 plus lies about every value the verifier could read from the prover. With ideal groups; strategies outside the model are not covered.')
P('Z03', 'ZK argument: each challenge depends on every message sent before it',
  'In the non-interactive zero-knowledge argument every challenge is a field element computed from all messages the prover sent before it: claimed output, commitments, sum of the mask, round polynomials and closing values. Changing any bit of any earlier message, or using other valid blinding, changes every later challenge; no challenge is a small constant or repeats another.',
  ['inputs', 'histories'], 'all circuits, all messages, all challenges',
  'An honest run is accepted whichever messages the challenges are derived from.',
  [ZV, 'include/linear_gkr/transcript.h'], [('transcript', 'include/linear_gkr/transcript.h proof_transcript'), ('drawing of challenges', ZV + ' verify')],
  'exhaustive perturbation of every message (over bits) of complete runs, non-interference of all later challenges', 'Bits of every message at a stride (thorough: every bit). Opened values (answers of the commitments) and their witnesses are excluded where the code does not put them in the transcript.')
P('Z04', 'ZK argument: the messages reveal nothing beyond the output',
  'For every circuit and input, the field elements the prover sends are masked: over the prover\'s coins, with the challenges held fixed, they are distributed over the whole space that the verifier\'s own equations leave free, so that no message and no combination of messages tells two inputs with the same output apart.',
  ['inputs'], 'all circuits, inputs and challenges',
  'No test looks at the distribution of the messages; a message sent without its mask is still accepted.',
  [ZP, ZV], [('masks of the values', ZP + ' generate_maskR, Zu, Zv'), ('masking polynomial', ZP + ' generate_maskpoly_*')],
  'exhaustive single-coin perturbation of complete runs; exact rank over the field of the resulting message directions', 'Exact rank at the explored circuits and challenges; messages are affine in the coins when the challenges are fixed, so the rank decides the distribution at that point.')
P('K01', 'The proof file and the challenges are exact functions of the messages sent',
  'For every sequence of field elements, group elements and challenges put into the transcript of the zero-knowledge program, the proof file it writes contains exactly the field and group elements, bit for bit and in order, and no challenge, and the reported proof size is its length; after a proof the file holds every message of the prover except the opened values. Every challenge drawn is a reduced field element, is recorded as handed out, is the same whenever the sequence is the same, and changes as soon as any bit of any earlier entry changes or two different entries are exchanged; challenges drawn together or one after the other differ. The compression function is AES-128 of the text half under the key half, plus the text, for both halves of its block.',
  ['inputs', 'histories'], 'all sequences of transcript entries, all values of the entries', 'The zero-knowledge program is not run by the tests; a transcript that drops a bit of a message or of the file still lets every honest proof pass.',
  ['include/linear_gkr/transcript.h', 'include/infrastructure/my_hhash.h', LG + 'prime_field.cpp', ZV], [('serialisation and proof file', 'include/linear_gkr/transcript.h container::output, output_to_file, get_proof_size'), ('challenges', 'include/linear_gkr/transcript.h random'), ('hash', 'include/infrastructure/my_hhash.h my_hhash')],
  'exhaustive enumeration of entry sequences on the real transcript; every single-bit change and exchange, lock-step with a reference serialisation and AES-128', 'All sequences of the three kinds of entry to length 5 (thorough 6), longer ones to hundreds of entries, files to length 7 (9), all bits of every entry; all blocks at one and (stride 7, thorough all) two bits from 4 (8) base blocks. Collisions of the hash itself are not searched beyond that.')
P('V01', 'A polynomial commitment opens only to the value of the committed polynomial',
  'For each of the three polynomial commitments, every polynomial and every point, an honest commitment and opening are accepted and the opened value is exactly the value of the polynomial at the point modulo the group order. An opening to any other value, of any other polynomial, at any other point, or with any group element or knowledge part changed is rejected, as is a commitment without matching knowledge part.',
  ['inputs', 'fault_sequences'], 'all polynomials, points, keys and altered openings',
  'The commitments need the pairing library and are not built by the tests.',
  [VP + 'vpdR.cpp', VP + 'vpd_test.cpp', VP + 'inputvpd.cpp'], [('commit, prove, verify', VP + '*.cpp'), ('multi-exponentiation tables', VP + 'inputvpd.cpp multi_scalar_calc, g1_exp')],
  'exhaustive enumeration of basis/dense polynomials x point grid and of all single (and paired) alterations of openings, decided by the real verifier over ideal groups', 'All sizes to 7 (thorough 9) variables; decides the algebra of the schemes, not the hardness assumptions behind them.')
P('V02', 'Commitments and openings hide everything but the opened value',
  'For each of the three polynomial commitments the group elements of commitment and opening, taken over the prover\'s coins, are uniformly distributed subject only to the verification equation: apart from the opened value they carry no information about the committed polynomial.',
  ['inputs'], 'all polynomials, points and keys', 'Hiding cannot be seen in a single run, and the commitments are not built by the tests.',
  [VP + 'vpdR.cpp', VP + 'vpd_test.cpp', VP + 'inputvpd.cpp'], [('blinding', VP + '*.cpp commit and prove (r_f, t)')],
  'exhaustive single-coin perturbation of commitment and opening, exact rank over the field', 'Exact rank at every explored size, polynomial kind and point.')
SG = ['bin/sha256gen_merkle.py', 'tests/SHA256/sha256gen.py']
P('S01', 'The SHA-256 program accepts exactly the correct compression traces',
  'The constraint program SHA256_64.pws written by the SHA-256 generator (summation gates read as binary-weighted sums, lowest bit first) gives zero on every output exactly when its inputs are a correct trace of one SHA-256 compression: for every message block, chaining value and round constants the honest trace gives only zeros, and a trace that departs from the computation anywhere (a message-schedule word, a working variable after any round, a digest word, a bit vector that does not represent its word, or an input that stands for a bit but is neither 0 nor 1) makes some output non-zero.',
  ['inputs', 'fault_sequences'], 'all message blocks, chaining values, round constants and all traces that are not the computation', 'The tests only check that the generated circuit is well formed and that an honest GKR prover is accepted on random inputs; neither depends on what the program checks.',
  SG, [('round and schedule constraints', 'bin/sha256gen_merkle.py write_64_rounds'), ('bit tests', 'bin/sha256gen_merkle.py verify_bits')],
  'explicit-state adversary model: a prover that departs from the computation at one place and is honest afterwards, every departure executed on the generated program; lock-step with SHA-256 from the standard', 'All single-bit departures of every word, bit vector and field input from two (thorough four) computations including the one with maximal carries, all bit tests, all one-bit and all-but-one-bit messages and chaining values. The first message word of a block is not decomposed into bits by design and is taken as given; the program translated by the tools is a known finding.')
P('S02', 'The Merkle data layer wires the blocks of the hash tree together',
  'For every number of leaves 2^m (m >= 1) the data layer written by the SHA-256 generator feeds one copy of the compression program per tree node, leaves first, the last one twice: initial value, round constants and weight constants are shared by all blocks, an inner block reads as its message the digests, and as message bits the digest bits, of its two children in order, the digest of the last block is the public root, and every other input belongs to one block alone. Public inputs come first; with padding the private ones fill one aligned power-of-two range. So the program accepts an honest tree and rejects another root or a node that does not hash its children.',
  ['inputs', 'configurations', 'fault_sequences'], 'all tree sizes, padding on and off, all leaf contents, all forged nodes and roots', 'The tests feed the tree with random inputs, for which any wiring is as good as any other.',
  SG, [('data layer', 'bin/sha256gen_merkle.py write_merkle_rdl')],
  'exhaustive comparison of the input partition of every block of every tree size in the bound with the tree, and execution of honest and forged trees on the generated program', 'Trees of 2 to 32 (thorough 64) leaves position by position; end-to-end with 2 and 4 (16) leaves.')
NA = []
exec(open(os.path.join(HERE, 'meta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'meta_more.py')) else None
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in L:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'], 'technique': p['technique'], 'level': PROPS[p['id']]['level'], 'level_note': p['note']} for p in L if p['id'] in PROPS]
na = NA + []
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the harnesses include or link the unmodified sources of /repo', 'source_commits': []}, 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
